"""cover.py [ID..]: lines of src/wax executed by the quick checks (coverage.py of the repository's environment).
Writes one data file per check in $OUT (default /tmp/cov/data) and prints the lines no check reaches."""
import glob
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("OUT", "/tmp/cov")
REPO = os.environ.get("VERIF_REPO", "/repo")


def one(pid):
    d = f"{OUT}/data/{pid}"
    os.makedirs(d, exist_ok=True)
    os.makedirs(f"{OUT}/site", exist_ok=True)
    open(f"{OUT}/site/sitecustomize.py", "w").write("import coverage\ncoverage.process_startup()\n")
    open(f"{d}/rc", "w").write(f"[run]\nparallel = True\nconcurrency = multiprocessing,thread\ndata_file = {d}/.coverage\nsource_pkgs = wax\nsigterm = True\n")
    cmd = open(f"{VERIF}/check").read().replace("$PWD/lib", f"$PWD/lib:{OUT}/site").replace("\nexec", f"\nexport COVERAGE_PROCESS_START={d}/rc\nexec")
    cmd = cmd.replace('"$(dirname "$0")"', VERIF)
    r = subprocess.run(["bash", "-c", cmd, "check", pid, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO))
    print(pid, r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:], flush=True)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(f"{VERIF}/checks/[a-z][0-9][0-9].py"))
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, ids))
    os.chdir(OUT)
    subprocess.run(["/opt/venv/bin/coverage", "combine", "--keep", f"--data-file={OUT}/all"] + glob.glob(f"{OUT}/data/*/.coverage*"), stdout=subprocess.DEVNULL)
    subprocess.run(["/opt/venv/bin/coverage", "report", "-m", "--omit=*_test.py,*/testing.py", f"--data-file={OUT}/all"])
