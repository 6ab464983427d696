#!/usr/bin/env python3
"""Generates the build variants of the crate under test from /repo's working tree into /verif/build/src-*.

  seq    the crate as it is
  sched  its `std` replaced by mcstd (locks, channels, threads and clocks under the controlled scheduler),
         with the denoising feature against the recording stand-in for the denoiser

The sources are used unchanged; `sched` gets one line after the end of lib.rs. Dependencies come from
/repo/Cargo.toml; only the optional git dependency on oidn-rs (not available offline) is replaced, and of
the image decoders only those for png, jpeg, bmp are compiled.
"""
import json, os, shutil, sys, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHIMS = os.path.join(VERIF, "mc", "shims")


def toml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml_value(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    return json.dumps(v)


def write_if_changed(path, data):
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "wb").write(data)


def variant(name):
    out = os.path.join(VERIF, "build", "src-" + name)
    man = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    deps = {}
    for k, v in man.get("dependencies", {}).items():
        v = {"version": v} if isinstance(v, str) else dict(v)
        if k == "oidn":
            if name != "sched":
                continue
            v = {"path": os.path.join(SHIMS, "oidn")}
        if k == "image":
            v["default-features"] = False
            v["features"] = ["png", "jpeg", "bmp"]
        deps[k] = v
    feats = {}
    for k, v in man.get("features", {}).items():
        feats[k] = [x for x in v if x not in ("dep:oidn",)]
    if name == "sched":
        feats["default"] = feats.get("default", []) + ["oidn-postprocessor"]
    if name == "sched":
        deps["mcstd"] = {"path": os.path.join(SHIMS, "mcstd")}
    pkg = man["package"]
    lines = ["[package]", f'name = "solstrale-{name}"', f'version = {json.dumps(pkg["version"])}',
             f'edition = {json.dumps(pkg["edition"])}', "autobins = false", "autotests = false",
             "autobenches = false", "autoexamples = false", "build = false", "", "[lib]",
             'name = "solstrale"', 'path = "src/lib.rs"', "doctest = false", "test = false", "", "[features]"]
    lines += [f"{json.dumps(k)} = {toml_value(v)}" for k, v in feats.items()]
    lines += ["", "[dependencies]"]
    lines += [f"{json.dumps(k)} = {toml_value(v)}" for k, v in deps.items()]
    write_if_changed(os.path.join(out, "Cargo.toml"), ("\n".join(lines) + "\n").encode())

    src = os.path.join(REPO, "src")
    wanted = set()
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, src)
        if rel == "bin" or rel.startswith("bin/"):
            continue
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            data = open(os.path.join(d, f), "rb").read()
            if r == "lib.rs" and name == "sched":
                data += b"\nextern crate mcstd as std;\n"
            wanted.add(r)
            write_if_changed(os.path.join(out, "src", r), data)
    for d, dirs, files in os.walk(os.path.join(out, "src")):
        for f in files:
            p = os.path.join(d, f)
            if os.path.normpath(os.path.relpath(p, os.path.join(out, "src"))) not in wanted:
                os.remove(p)


if __name__ == "__main__":
    for v in sys.argv[1:] or ["seq", "sched"]:
        variant(v)
