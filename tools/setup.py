"""Nothing to build; checks that the interpreters and solvers the checks use are present."""
import os, subprocess, sys
ok = True
for cmd in (["/opt/veriftools/pyvenv/bin/python", "-c", "import z3; print('z3', z3.get_version_string())"],
            ["/opt/pvenv/bin/python", "-c", "import sys; print(sys.version.split()[0])"]):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(r.stdout.decode().strip())
    ok = ok and r.returncode == 0
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
