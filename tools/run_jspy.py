"""Checks with a JavaScript and a Python half: the Python package is put together as its BUILD file does."""
import hashlib, json, os, shutil, subprocess, sys
import run_js, scripted

V, R = run_js.V, run_js.R


def python(f):
    """a generated Python file has to be there, to be Python, and to define its classes"""
    try: compile(open(f).read(), f, "exec")
    except (OSError, SyntaxError, ValueError) as e: run_js.unusable("the generated Python classes cannot be used: " + str(e), str(e))
    code = ("import sys, types; p = types.ModuleType('rtbot'); p.__path__ = []; a = types.ModuleType('rtbot.rtbotapi'); a.validateOperator = lambda *x: '{}'; p.rtbotapi = a; sys.modules.update({'rtbot': p, 'rtbot.rtbotapi': a})\n"
            "try: exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'__name__': 'rtbot.operators', '__package__': 'rtbot'})\n"
            "except ImportError: pass\n")
    r = subprocess.run([sys.executable, "-c", code, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: run_js.unusable("the generated Python classes cannot be used: " + (r.stdout.strip().splitlines() or ["?"])[-1], r.stdout)


def package(pid):
    """directory with package rtbot: rtbot.py as __init__, generated operator classes, and the harness's rtbotapi"""
    d0 = run_js.bundle("py")
    d = f"{V}/build/pkg-{run_js.tree(V + '/py', R + '/libs/wrappers/python/rtbot.py', d0 + '/python')}"
    if not os.path.exists(d + "/done"):
        os.makedirs(d + "/rtbot", exist_ok=True)
        shutil.copy(R + "/libs/wrappers/python/rtbot.py", d + "/rtbot/__init__.py")
        if run_js.GENERATOR:
            python(d0 + "/python/jsonschema.py")
        shutil.copy(d0 + "/python/jsonschema.py", d + "/rtbot/operators.py")
        shutil.copy(V + "/py/rtbotapi.py", d + "/rtbot/rtbotapi.py")
        open(d + "/done", "w").close()
    return d


def documented():
    """what the operator pages say, read without the generator; and the schema every target of the generator writes"""
    import gen_schema
    text = json.dumps(gen_schema.schemas(R + "/libs")); f = f"{V}/build/docs-{hashlib.sha256(text.encode()).hexdigest()[:16]}.json"
    os.makedirs(V + "/build", exist_ok=True)
    if not os.path.exists(f):
        open(f"{f}.{os.getpid()}", "w").write(text); os.replace(f"{f}.{os.getpid()}", f)
    d = run_js.bundle("py"); h = d + "/cpp/header.json"
    if not os.path.exists(h):
        open(d + "/cpp/main.cpp", "w").write('#include <iostream>\n#include "jsonschema.hpp"\nint main() { std::cout << rtbot_schema.dump(); }\n')
        run_js.sh(["g++", "-std=c++17", "-O0", d + "/cpp/main.cpp", "-o", d + "/cpp/main"], "the generated C++ header does not compile", True)
        text = subprocess.run([d + "/cpp/main"], stdout=subprocess.PIPE, check=True).stdout
        open(f"{h}.{os.getpid()}", "wb").write(text); os.replace(f"{h}.{os.getpid()}", h)
    return {"RT_DOCS": f, "RT_GENERATED": ":".join([h] + [f"{d}/{t}/jsonschema.json" for t in ("cpp", "jsonschema", "python", "typescript")])}


def group(pid):
    return ("Python: ", [sys.executable, f"{V}/py/{pid}.py"], {"RT_ENGINE": run_js.engine(False), "PYTHONPATH": package(pid) + ":" + V + "/py", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"})


def main(pid, tier, common, args):
    if pid in ("C38", "C43"):
        run_js.GENERATOR = pid
    more = documented() if pid in ("C38", "C43") else {}
    if pid == "C43":
        more["RT_PAGES"] = run_js.bundle(pid); python(more["RT_PAGES"] + "/made/python/jsonschema.py")
    return scripted.run(pid, tier, [(l, c, {**e, **more}) for l, c, e in ([run_js.group(pid)] if os.path.exists(f"{V}/js/{pid}.ts") else []) + [group(pid)]], common, args)
