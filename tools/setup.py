"""nothing to build: checks that the tools the checks need are there"""
import shutil, subprocess, sys
import z3
assert shutil.which("cvc5") and z3.get_version_string()
subprocess.run(["/opt/venv/bin/python", "-c", "import satisfy"], check=True, env={"PYTHONPATH": "/repo/src", "PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1"})
print("ok")
