"""Scratch build of /repo's working tree: copy the package, compile its extensions there,
import it from there.  /repo itself is never written to."""
import os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"


def build():
    root = tempfile.mkdtemp(prefix="dst_overlay_")
    skip = shutil.ignore_patterns("*.so", "__pycache__", ".git", "build", "*.egg-info", ".pytest_cache")
    shutil.copytree(os.path.join(REPO, "pystatsm"), os.path.join(root, "pystatsm"), ignore=skip)
    for f in ("setup.py", "README.md", "requirements.txt"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), root)
    # generated C is rebuilt from the .pyx, never trusted
    for d, _, fs in os.walk(os.path.join(root, "pystatsm")):
        for f in fs:
            if f.endswith(".pyx"):
                c = os.path.join(d, f[:-4] + ".c")
                if os.path.exists(c):
                    os.remove(c)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "-j", "2"], cwd=root, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        shutil.rmtree(root, ignore_errors=True)
        sys.stderr.write(p.stdout[-4000:])
        raise RuntimeError("extension build failed")
    shutil.rmtree(os.path.join(root, "build"), ignore_errors=True)
    return root


def activate(root):
    sys.path.insert(0, root)
    import pystatsm
    got = os.path.dirname(os.path.abspath(pystatsm.__file__))
    if got != os.path.join(root, "pystatsm"):
        raise RuntimeError("imported %s, not the scratch build %s" % (got, root))


def remove(root):
    if root and os.path.basename(root).startswith("dst_overlay_"):
        shutil.rmtree(root, ignore_errors=True)
