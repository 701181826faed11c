"""Check that everything the checks need is there (nothing has to be built)."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
import tla  # noqa: E402

os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
for jar in tla.JARS.split(":"):
    assert os.path.exists(jar), jar
subprocess.run(["java", "-version"], check=True)
subprocess.run([tla.PY, "-c", "import lab, plum, numpy"], check=True)
print("ready")
