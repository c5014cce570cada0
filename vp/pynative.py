"""The real extension modules, built from the current tree in a scratch copy."""
import os
import subprocess
import sys

PYENV = "/opt/vp/env.sh"


def build_module(scratch):
    """copy of the working tree + the repository's own build; returns (root, error)"""
    root = os.path.join(scratch, "repo")
    mark = os.path.join(scratch, "repo.ok")
    if os.path.exists(mark):
        return root, None
    if os.path.exists(mark + ".err"):
        return root, open(mark + ".err").read()
    repo = os.environ.get("VP_REPO", "/repo")
    os.makedirs(root, exist_ok=True)
    c = f"tar -C {repo} --exclude=./.git --exclude=./doc --exclude=./randomgen/tests/data --exclude='__pycache__' -cf - . | tar -C {root} -xf -"
    r = subprocess.run(c, shell=True, capture_output=True, text=True)
    if r.returncode == 0:
        r = subprocess.run(["bash", "-c", f". {PYENV} && cd {root} && python /opt/vp/run_setup.py"], capture_output=True, text=True)
    if r.returncode:
        with open(mark + ".err", "w") as f:
            f.write((r.stdout[-500:] + r.stderr[-2500:]))
        return root, r.stderr[-2500:]
    open(mark, "w").close()
    return root, None


def run_py(scratch, script, args=(), timeout=300, stdin=None):
    """run a script under the build environment's Python with the scratch package first"""
    root, err = build_module(scratch)
    if err:
        return None, err
    cmd = f". {PYENV} && cd {scratch} && PYTHONPATH={root} exec python -X faulthandler {script} " + " ".join(args)
    try:
        r = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, timeout=timeout, input=stdin)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return r, None
