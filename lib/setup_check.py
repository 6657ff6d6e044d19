"""setup_cmd: the toolchain is there and the event-log crate builds against /repo, offline."""
import os, subprocess
from common import *

def main():
    for tool in ("cargo", "rustc"):
        p = subprocess.run([tool, "--version"], env=ENV, stdout=subprocess.PIPE, text=True)
        if p.returncode: print("missing:", tool); return 1
        print(p.stdout.strip())
    ctx = Ctx("setup")
    ctx.build({"hello": [Unit("u", "#[derive(Serialize, OpgModel)] pub struct A { pub x: u8 }\npub fn run() { rt::schema::<A>(\"u\", \"A\"); }\n")]})
    ev, rc, err = ctx.run_bin("hello")
    ok = rc == 0 and any(e["ev"] == "schema" for e in ev)
    print("setup", "ok" if ok else "failed: %s" % err)
    return 0 if ok else 1
