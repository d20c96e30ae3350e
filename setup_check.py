#!/opt/venv/bin/python
"""setup_cmd: verifies the offline toolchain and the exact arithmetic the specs rest on."""
import os
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vkit  # noqa: E402

tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    build = vkit.build_overrides(tmp)
    cfg = os.path.join(tmp, "l.cfg")
    open(cfg, "w").write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
    rc, txt = vkit.run_tlc(build, "RatLaws", ["-config", cfg], os.path.join(tmp, "md"), {}, 300)
    if rc != 0:
        print(txt[-3000:])
        sys.exit(1)
finally:
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
print("setup ok")
