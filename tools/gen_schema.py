#!/usr/bin/env python3
"""gen_schema.py LIBS BUILD: writes BUILD/gen-<hash>/rtbot/jsonschema.hpp the way tools/generator does (target cpp),
from the project's own template and operator documentation, and prints the include directory."""
import glob, hashlib, json, os, re, sys, yaml


def schemas(libs):
    out = []
    for f in sorted(glob.glob(libs + "/core/include/**/*.md", recursive=True)) + sorted(glob.glob(libs + "/std/include/**/*.md", recursive=True)):
        txt = open(f).read()
        if "---" not in txt:
            continue
        s = yaml.safe_load(txt.split("---")[1])["jsonschema"]
        s["properties"]["type"] = {"enum": [os.path.basename(f)[:-3]]}
        s["required"] = ["type"] + s["required"]
        out.append(s)
    return out


def program_schema(libs):
    t = open(libs + "/../tools/generator/templates/jsonschema.hbs").read()
    t = re.sub(r"\{\{#each schemas\}\}.*\{\{/each\}\}", lambda m: ",".join(json.dumps(s) for s in schemas(libs)), t, flags=re.S)
    return json.loads(t)


if __name__ == "__main__":
    libs, build = sys.argv[1:3]
    js = json.dumps(program_schema(libs), indent=1)
    d = f"{build}/gen-{hashlib.sha256(js.encode()).hexdigest()[:16]}"
    os.makedirs(d + "/rtbot", exist_ok=True)
    p = d + "/rtbot/jsonschema.hpp"
    if not os.path.exists(p):
        t = f"{p}.{os.getpid()}"
        open(t, "w").write("#ifndef RTBOT_JSONSCHEMA_H_\n#define RTBOT_JSONSCHEMA_H_\n#include <nlohmann/json.hpp>\nusing nlohmann::json;\n"
                           'static json rtbot_schema = R"rtbotschema(' + js + ')rtbotschema"_json;\n#endif\n')
        os.replace(t, p)
    print(d)
