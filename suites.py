"""What is built and run for each property, and the findings that are known."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))

ASAN = ["-std=c++17", "-gline-tables-only", "-DXTYPES_EXCEPTIONS", "-fsanitize=address,undefined",
        "-fno-sanitize=alignment,vptr,bool,null,function,shift", "-fno-sanitize-recover=all", "-I@REPO@/include",
        "-I@HERE@/harness", "-Wno-everything"]

# Threads under the simulator's scheduler: the compiler's thread instrumentation calls the runtime in rt_conc.cpp.
CONC = ["-std=c++17", "-gline-tables-only", "-fPIC", "-DXTYPES_EXCEPTIONS", "-DSIM_CONC", "-DSIM_TLS=thread_local", "-include",
        "@HERE@/harness/simstd.hpp", "-I@REPO@/include", "-I@HERE@/harness", "-Wno-everything"]
SEEN = CONC + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]

# The engine of parsing expression grammars that the parser needs is no part of the repository: peg/peglib.h stands in.
PEG = ["-I@HERE@/harness/peg"]

SUITES = {
    "data": {
        "cc": "clang++", "flags": ASAN, "quick_flags": ["-O0"], "thorough_flags": ["-O1"],
        "units": [{"src": "rt.cpp"}, {"src": "model.cpp"}, {"src": "data.cpp"}, {"src": "main.cpp"}],
        "link": ["-fsanitize=address,undefined"],
    },
    "mod": {
        "cc": "clang++", "flags": ASAN, "quick_flags": ["-O0"], "thorough_flags": ["-O1"],
        "units": [{"src": "rt.cpp"}, {"src": "model.cpp"}, {"src": "mod.cpp"}, {"src": "main.cpp"}],
        "link": ["-fsanitize=address,undefined"],
    },
    "text": {
        "cc": "clang++", "flags": ASAN, "quick_flags": ["-O0"], "thorough_flags": ["-O1"],
        "units": [{"src": "rt.cpp"}, {"src": "text.cpp"}, {"src": "main.cpp"}],
        "link": ["-fsanitize=address,undefined"],
    },
    "gen": {
        "cc": "clang++", "flags": ASAN, "quick_flags": ["-O0"], "thorough_flags": ["-O1"],
        "units": [{"src": "rt.cpp"}, {"src": "model.cpp"}, {"src": "gen.cpp"}, {"src": "main.cpp"}],
        "link": ["-fsanitize=address,undefined"],
    },
    "idl": {
        "cc": "clang++", "flags": ASAN + PEG, "quick_flags": ["-O1"], "thorough_flags": ["-O1"],
        "units": [{"src": "rt.cpp"}, {"src": "model.cpp"}, {"src": "idl_doc.cpp"}, {"src": "idl.cpp"}, {"src": "main.cpp"}],
        "link": ["-fsanitize=address,undefined", "-Wl,--wrap=popen,--wrap=pclose,--wrap=mkstemp"], "libs": ["-ldl"],
    },
    "conc": {     # what is instrumented comes first at the link: its copy of a template is the one used
        "cc": "clang++", "flags": CONC + ["-O2"], "quick_flags": [], "thorough_flags": [],
        "units": [{"src": "model.cpp", "flags": SEEN}, {"src": "data.cpp", "flags": SEEN}, {"src": "mod.cpp", "flags": SEEN},
                  {"src": "text.cpp", "flags": SEEN}, {"src": "gen.cpp", "flags": SEEN}, {"src": "rt_conc.cpp"}, {"src": "main.cpp"}, {"src": "conc.cpp"},
                  {"src": "idl.cpp", "flags": SEEN + PEG + ["-DPEG_APART"]}, {"src": "idl_doc.cpp"}, {"src": "peg/peg.cpp"}],
        "link": ["-no-pie", "-rdynamic", "-Wl,--wrap=fread"], "libs": ["-ldl", "-lpthread"],
    },
}

REAL = ["all of /repo/include/xtypes reached through its public API, compiled unchanged with XTYPES_EXCEPTIONS",
        "libstdc++"]
STUB = ["operator new and delete (the simulator's: they decide which allocation fails, and keep a table of live blocks)"]
ASSUME = ["one thread at a time (C08 and C09 are about several)",
          "clang 18 code with AddressSanitizer and UndefinedBehaviorSanitizer stands for any conforming build",
          "a clean batch is a sample of histories, not a proof"]
RULE = ("One seed is one history: 3 to 26 operations drawn from a weighted mix (swarm: each run leaves some out) over 5 type "
        "and 6 data slots, generated types and values, and allocation failures placed inside the operations (the nth request, "
        "every request from the nth on, requests above a size, or every request of an operation in turn with a retry after "
        "each). Non-trivial: the run met an injected fault or a refused operation; distinct: by its trace hash.")


def data(quick=30, thorough=600):
    def make(profile):
        return {"parts": [{"suite": "data", "profile": profile, "quick": {"seconds": quick}, "thorough": {"seconds": thorough}}],
                "rule": RULE, "real": REAL, "stub": STUB, "assumptions": ASSUME}
    return make


PROPS = {p: data()(p) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11")}
PROPS["C12"] = {
    "parts": [{"suite": "text", "profile": "C12", "quick": {"seconds": 30}, "thorough": {"seconds": 600}}],
    "rule": "One seed is one history of conversions and of text written to and read from data, over generated texts (any length, "
            "any plane), cut, damaged and mis-encoded inputs, and allocation failures inside the conversions. Non-trivial: the "
            "run met a fault or a damaged text; distinct: by its trace hash.",
    "real": REAL, "stub": STUB, "assumptions": ASSUME}
PROPS["C13"] = {
    "parts": [{"suite": "mod", "profile": "C13", "quick": {"seconds": 30}, "thorough": {"seconds": 600}}],
    "rule": "One seed is one history over a tree of modules: registrations, refused registrations, replacements and lookups by "
            "relative, qualified and absolute names, with allocation failures placed inside them. Non-trivial: the run met an "
            "injected fault or a refused operation; distinct: by its trace hash.",
    "real": REAL, "stub": STUB, "assumptions": ASSUME}

for _p, _what in (("C08", "that read, copy, print, hash and compare the same types and data, beside data of their own"),
                  ("C09", "that build, use and release types, data and modules of their own, from types built before as well")):
    PROPS[_p] = {
        "parts": [{"suite": "conc", "profile": _p, "quick": {"seconds": 35}, "thorough": {"seconds": 900}}],
        "rule": "One seed is one history and one schedule: two to four threads " + _what + ", 0 to 14 planned preemptions placed "
                "among the accesses of a thread, and allocation failures inside its operations. Every thread also runs alone, and "
                "obtains the same there. Non-trivial: the threads were preempted; distinct: by trace hash, which takes in the "
                "sequence of switches.",
        "states": "distinct sequences of thread switches, each named by the thread and the number of its accesses so far",
        "real": REAL + ["threads of the system, one running at a time"],
        "stub": STUB + ["the scheduler, mutexes, once-flags and guards of static variables (the simulator's)",
                        "the run-time of -fsanitize=thread (the simulator's: a race detector over vector clocks that also gives "
                        "the scheduler its preemption points)"],
        "assumptions": ["sequentially consistent interleavings; what a weaker memory could show is reported as a race",
                        "at most four threads", "parts of libstdc++ inside its shared object are seen as a whole, at their arguments",
                        "a clean batch is a sample of schedules, not a proof"]}
PROPS["C14"] = {
    "parts": [{"suite": "gen", "profile": "C14", "quick": {"seconds": 25}, "thorough": {"seconds": 600}},
              {"suite": "conc", "profile": "C14t", "quick": {"seconds": 25}, "thorough": {"seconds": 600}}],
    "rule": "One seed is one history: modules filled and changed at random, and generations of the whole, of a part or of one "
            "type, each read by an independent reader of IDL and compared with a model of the module, with allocation failures "
            "inside the generations; or two to four threads that generate from one module at once under a seeded scheduler, "
            "each compared with the same thread alone. Non-trivial: the run met a fault or a preemption; distinct: by its trace "
            "hash.",
    "real": REAL + ["threads of the system, one running at a time (second part)"],
    "stub": PROPS["C08"]["stub"],
    "assumptions": ["clang 18 code stands for any conforming build", "at most four threads",
                    "the module holds what IDL can express (see DESIGN.md)",
                    "the independent reader reads what the generator writes, not all of IDL",
                    "a clean batch is a sample, not a proof"]}

ENGINE = ["the PEG engine of the parser: cpp-peglib is downloaded by the build and absent here, harness/peg/peglib.h stands in "
          "(same interface, same grammar text, its own matcher)"]
IDL = {"suite": "idl", "profile": "C15", "quick": {"seconds": 35}, "thorough": {"seconds": 900}}
PROPS["C15"] = {
    "parts": [IDL],
    "rule": "One seed is one history: IDL documents generated with what they declare, parsed from texts and files through the "
            "pipe and the temporary file strategies and without a preprocessor, into fresh, used and copied contexts, with a fault inside: an "
            "allocation refused, the preprocessor not started, killed, exiting early, its pipe failing, interrupted or giving few "
            "bytes, files that cannot be created, opened, written (no space) or read. The same document is then parsed without "
            "the fault. Non-trivial: the run met a fault or a refused document; distinct: by its trace hash.",
    "real": REAL + ["the preprocessor (cpp, cat) and the shell, as processes of the system run to their end"],
    "stub": STUB + ENGINE + ["popen, pclose, mkstemp, open, read, write as the parser calls them (the simulator's: they decide "
                             "what fails, and give what the real process or file gives otherwise)"],
    "assumptions": ["one thread at a time (C16 is about several)", "clang 18 code with AddressSanitizer and "
                    "UndefinedBehaviorSanitizer stands for any conforming build", "the stand-in engine matches the grammar as "
                    "cpp-peglib does", "a clean batch is a sample of histories, not a proof"]}
PROPS["C19"] = dict(PROPS["C15"], parts=[dict(IDL, profile="C19")],
    rule="One seed is one history of parses into contexts, copies and resets of them, types and data taken out of them, and trees "
         "generated as IDL and parsed again; documents are generated with what they declare in a random notation (comments, white "
         "space, markers, annotations, literals, expressions, names), about one in five broken in a way that has to be refused, "
         "with allocation failures inside the parses. Non-trivial: the run met a fault or a refused document; distinct: by its "
         "trace hash.")
PROPS["C16"] = {
    "parts": [{"suite": "conc", "profile": "C16t", "quick": {"seconds": 40}, "thorough": {"seconds": 900}},
              {"suite": "idl", "profile": "C19", "quick": {"seconds": 15}, "thorough": {"seconds": 300}}],
    "rule": "One seed is one history and one schedule: two to four threads that parse documents of their own, from the first use "
            "of the parser on, some of them broken, and work on the types and data they obtain, 0 to 14 planned preemptions "
            "placed among the accesses of a thread; every thread also runs alone and obtains the same symbols, values and "
            "messages there. Or, second part, histories of accepted and refused documents in one thread. Non-trivial: the threads "
            "were preempted, or the run met a fault or a refusal; distinct: by trace hash, which takes in the switches.",
    "states": PROPS["C08"]["states"],
    "real": PROPS["C08"]["real"], "stub": PROPS["C08"]["stub"] + ENGINE,
    "assumptions": PROPS["C08"]["assumptions"] + ["the preprocessor of the threads is cat, run for real (documents without directives)"]}


def _known():
    """known-findings.txt: `known: property=<id> key=<k> class=<regex> match=<regex> what=<text>` lines."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) class=(\S+) match=/(.*)/ what=(.*)$", line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = {"cls": m.group(3), "match": m.group(4), "what": m.group(5)}
    return out


KNOWN = _known()


def classify_known(prop, cls, msg):
    for key, k in KNOWN.get(prop, {}).items():
        if re.fullmatch(k["cls"], cls) and re.search(k["match"], msg):
            return key
    return None
