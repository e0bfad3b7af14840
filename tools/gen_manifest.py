#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl: a check for every property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
ST = "explicit exhaustive exploration of the real code (stateless model checking of bounded histories against a reference model)"
T = {
 "C05": "exhaustive exploration of all listing orders (schedules of Operator::emit) of all small program graphs on the real code",
 "C06": "exhaustive exploration of all checkpoint positions of all bounded histories on the real code (crash-point model checking)",
 "C07": "exhaustive exploration of all crash points of all bounded histories of all small programs on the real code",
 "C22": "exhaustive enumeration of program graphs and bounded inputs on the real code against a reference dataflow model, stepwise conformance",
 "C25": "exhaustive exploration of all bounded call sequences on the real program API against a reference registry model",
 "C33": "exhaustive exploration of all short periodic input patterns with monitoring of checkpoint size and live heap on the real code",
 "C34": "stateless model checking of all thread interleavings, at lock and engine calls, of the real registry source under a controlled scheduler plus exhaustive call sequences against a map model",
 "C35": "exhaustive exploration of all bounded edit sequences on the real source against a reference model",
 "C36": "stateless model checking: all interleavings of the asynchronous steps of concurrent calls on the real source",
 "C38": "exhaustive enumeration of operator classes, parameter values and omissions on the generated code, against the documentation and the engine",
 "C39": "exhaustive exploration of all bounded histories of commands and sample arrivals on the real module source against a reference model",
 "C40": "exhaustive exploration of all bounded sequences of keys, ticks and selections on the real source against a reference model",
 "C41": "exhaustive exploration of all bounded call sequences through the real module definitions, against the engine",
 "C44": "explicit exhaustive exploration of the real Python package: all bounded programs, drawn after every step and compared with the list of connections",
 "C43": "exhaustive enumeration of the repository's operator pages and of all bounded made-up ones through the real generator, carrying out the examples",
 "C42": "stateless model checking of task schedules (bounded deviations from oldest-first) and all bounded event sequences on the real server source",
 "C37": "exhaustive enumeration of bounded data sets, programs and failures on the real helpers against a reference model",
}
NOTE = "All executions inside the stated bounds are run on the code itself (no abstraction, nothing sampled); the assurance ends at those bounds. Trusted: the explorer mc/mc.h, the reference model in the harness, gcc and libstdc++."
N = {
 "C25": NOTE + " The JSON schema validator library is not installed and replaced by stubs/nlohmann/json-schema.hpp.",
 "C23": NOTE + " The JSON schema validator library is not installed and replaced by stubs/nlohmann/json-schema.hpp.",
 "C26": NOTE + " The JSON schema validator library is not installed and replaced by stubs/nlohmann/json-schema.hpp.",
 "C31": NOTE + " The JSON schema validator library is not installed and replaced by stubs/nlohmann/json-schema.hpp.",
 "C32": NOTE + " The JSON schema validator library is not installed and replaced by stubs/nlohmann/json-schema.hpp, which implements the draft-07 keywords the published schema uses.",
 "C34": NOTE + " cxx, nanoid and the C++ engine are not available to cargo here: the registry source is compiled with stand-ins for them and a Mutex under the explorer's control.",
 "C35": NOTE + " The TypeScript source is compiled with esbuild; class-transformer is replaced by a stand-in.",
 "C36": NOTE + " The TypeScript source is compiled with esbuild; the engine module is the native engine behind node's native interface.",
 "C37": NOTE + " The engine behind the helpers is the native engine (Python: through ctypes; JavaScript: through node's native interface) or a scripted one; pybind11 and emscripten are not installed.",
 "C39": NOTE + " Redis, redis-module, cxx, nanoid, jsonschema and the C++ engine are not available to cargo here: the module source is compiled with stand-ins for them.",
 "C40": NOTE + " Terminal (blessed), store (zustand, immer), CSV and option parsers are not installed and replaced by stand-ins; the engine is the native engine behind node's native interface.",
 "C41": NOTE + " pybind11, embind and protocol buffers are not installed and replaced by stand-ins (stubs/pybind11, stubs/emscripten, stubs/RtBot.pb.h).",
 "C44": NOTE + " The generated operator classes are the real generator's output; validation runs in the native engine through ctypes.",
 "C43": NOTE + " The generator is run as it is with stand-ins for json-schema-to-zod, json-schema-to-typescript, prettier and yaml, which are not installed; the C++ examples are fragments and are not carried out.",
 "C42": NOTE + " tokio's runtime, warp, redis, tungstenite, config, glob, url and jsonpath are not available to cargo here and replaced by stand-ins; channels, futures and serde are the real crates.",
 "C38": NOTE + " The generator is run as it is with stand-ins for json-schema-to-zod, json-schema-to-typescript, prettier and yaml, which are not installed.",
}
NA = {}
def built(i):
    return any(os.path.exists(f"{V}/{p}") for p in (f"harness/{i}.cpp", f"rust/{i}.rs", f"js/{i}.ts", f"py/{i}.py"))
checks, na = [], []
for p in props:
    i = p["id"]
    if built(i):
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": T.get(i, ST), "level": "model_checking", "level_note": N.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check builds what it needs from /repo's working tree (objects are cached by preprocessed content in build/). Known findings: KNOWN_FINDINGS.txt. Replay: python3 check.py <id> --replay replays/<id>.txt"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
