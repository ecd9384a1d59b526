"""Replays of the native kernel, in child processes (a crash is a finding)."""
import glob
import json
import os
import subprocess
import sys
import sysconfig


def build(b, name, *flags):
    import numpy

    root = os.environ.get("VIQA_ROOT", "/repo")
    src = os.path.join(root, "src/viqa/fr_metrics/stat_utils/statisticsmodule.c")
    d = os.path.join(b.tmp, name)
    os.makedirs(d)
    so = os.path.join(d, "statisticscalc.so")
    cmd = ["gcc", "-shared", "-fPIC", "-std=c11", "-w", "-I" + sysconfig.get_paths()["include"],
           "-I" + numpy.get_include(), *flags, src, "-o", so, "-lm"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None
    return so


def run(b):
    here = os.path.dirname(os.path.abspath(__file__))

    def child(label, so, mode, env=None, limit=120):
        out = os.path.join(b.tmp, label.replace(" ", "_") + ".json")
        e = dict(os.environ, **(env or {}))
        try:
            r = subprocess.run([sys.executable, "-B", os.path.join(here, "native_child.py"), so, out, str(b.seed),
                                mode, "1" if b.thorough else "0"], env=e, capture_output=True, text=True, timeout=limit)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        last, res = "", None
        if os.path.exists(out + ".last"):
            last = open(out + ".last").read()
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        if res is None:
            if rc == "timeout":  # a slow machine is not a finding; an endless call is reported by the plain build
                b.case(label, lambda: mode != "values" or f"does not end; last call: {last}")
                return
            b.case(label, lambda: f"the process ended with status {rc} in: {last} :: {err[-600:]}", call=last)
            return
        for f in res["failures"]:
            b.case(f["label"], lambda f=f: f["message"], call=f["call"])
        b.n += res["cases"] - len(res["failures"])

    so = build(b, "plain", "-O2")
    if so is None:
        raise RuntimeError("native extension does not compile")
    child("values", so, "values", limit=240 if not b.thorough else 900)
    child("no memory", so, "nomem", limit=60)
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    if os.path.isabs(asan) and os.path.exists(asan):
        so = build(b, "san", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")
        probe = dict(LD_PRELOAD=os.path.realpath(asan), ASAN_OPTIONS="detect_leaks=0:halt_on_error=1", PYTHONMALLOC="malloc")
        ok = so and subprocess.run([sys.executable, "-c", "import numpy"], env=dict(os.environ, **probe),
                                   capture_output=True).returncode == 0
        if ok:
            child("sanitised run", so, "sanitised", probe, limit=180)
