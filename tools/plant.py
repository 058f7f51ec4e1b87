#!/opt/venv/bin/python
"""
Planting bugs (development tool; no check uses it).

plant.py SPEC.py [id ...]     SPEC.py calls bug(id, property, file, [(old, new), ...], demo, needs, breaks)

Makes each change in a scratch copy of /repo, and keeps it as /verif/seeded/<id>
(or under $SEEDED) if the package builds, the tests pass with it and the
demonstration passes without it and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
PY = "/opt/venv/bin/python"
REPO = os.environ.get("BIG_REPO", "/repo")
SEEDED = os.environ.get("SEEDED", "/verif/seeded")
ENV = {**os.environ, "LC_ALL": "C.UTF-8", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
only = sys.argv[2:]
work = tempfile.mkdtemp(prefix="plant.")
copy = work + "/repo"
subprocess.run(["git", "clone", "-q", REPO, copy], check=True)
runner = work + "/run.py"
# (the tests look for the package starting at sys.argv[0], and leave threads behind if they fail)
open(runner, "w").write(f"import os, sys, pytest\na = sys.argv[1:]\nsys.argv[0] = {copy!r} + '/tests/test_all.py'\nrc = int(pytest.main(a))\nsys.stdout.flush()\nos._exit(rc)\n")


def run(*a, **kw):
    return subprocess.run(a, cwd=copy, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, **kw)


def bug(id, prop, file, edits, demo, needs, breaks):
    if only and id not in only: return
    if not only and os.path.exists(f"{SEEDED}/{id}/patch.diff"): return
    run("git", "checkout", "-q", "--", ".")
    path = f"{copy}/big/{file}"
    s = open(path).read()
    for old, new in edits:
        if s.count(old) != 1:
            print(f"{id}: {s.count(old)} x {old!r}"); return
        s = s.replace(old, new)
    d = f"{work}/{id}"
    os.makedirs(d)
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + textwrap.dedent(demo).lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    r = run("bash", d + "/demo.sh")
    if r.returncode:
        print(f"{id}: the demonstration fails on the unchanged tree\n{r.stdout[-1500:]}"); return
    open(path, "w").write(s)
    diff = run("git", "diff").stdout
    r = run("bash", d + "/demo.sh")
    if not r.returncode:
        print(f"{id}: the demonstration doesn't fail"); return
    why = r.stdout.strip().splitlines()[-1:]
    r = run(PY, runner, "-q", "-p", "no:cacheprovider", "--timeout=60", "--ignore=tests/test_all.py", "tests")
    last = r.stdout.strip().splitlines()[-1]
    if r.returncode:
        print(f"{id}: tests: {last}"); return
    for l in diff.splitlines():
        if l.startswith("@@"): pass
    # which of the changed lines are original?
    base = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    orig = set(subprocess.run(["git", "-C", REPO, "show", f"{base}:big/{file}"], capture_output=True, text=True).stdout.splitlines())
    minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    if not any(l in orig and l.strip() for l in minus):
        print(f"{id}: changes no original line"); return
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(f"{SEEDED}/{id}", ignore_errors=True)
    shutil.copytree(d, f"{SEEDED}/{id}")
    print(f"{id}: kept ({last}; {why})", flush=True)


try:
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
finally:
    shutil.rmtree(work)
