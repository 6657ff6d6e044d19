"""Build, run and verdict plumbing shared by the checks."""
import fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")

ENV = dict(os.environ)
ENV.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


HANG = "hang"

def compilers(session):
    """(CPU seconds, command line) of each compiler process of a session we started."""
    tick = os.sysconf("SC_CLK_TCK")
    for pid in filter(str.isdigit, os.listdir("/proc")):
        try:
            with open("/proc/%s/stat" % pid) as f: head, tail = f.read().rsplit(")", 1)
            v = tail.split()
            if int(v[3]) != session or not head.endswith("(rustc"): continue
            with open("/proc/%s/cmdline" % pid) as f: cmd = f.read().replace("\0", " ")
            yield (int(v[11]) + int(v[12])) / tick, cmd
        except (OSError, ValueError): pass

class Inconclusive(Exception):
    """The check could not decide: exits 2, never a verdict."""


def repo_hash():
    h = hashlib.sha256()
    for base in ("opg", "opg_derive", "Cargo.toml"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, dd, ff in os.walk(p) for f in ff if "/target" not in d)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    rt = os.path.join(VERIF, "rt")
    for f in ("Cargo.toml", "Cargo.lock", "src/lib.rs"):
        h.update(open(os.path.join(rt, f), "rb").read())
    return h.hexdigest()[:16]


def target_dir():
    """One build directory per state of /repo, so a stale build can never be reused."""
    os.makedirs(WORK, exist_ok=True)
    want = os.path.join(WORK, "target-" + repo_hash())
    with open(os.path.join(WORK, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(want, exist_ok=True)
        os.utime(want)
        old = sorted((d for d in os.listdir(WORK) if d.startswith("target-")),
                     key=lambda d: os.path.getmtime(os.path.join(WORK, d)), reverse=True)
        for d in old[4:]:
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
    return want


CARGO_TOML = """[package]
name = "work"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
rt = {{ path = "{verif}/rt" }}
opg = {{ path = "/repo/opg", features = ["uuid", "chrono"] }}
serde = {{ version = "1", features = ["derive", "rc"] }}
serde_json = "1"
serde_yaml = "0.8"
serde_repr = "0.1"
uuid = {{ version = "1", features = ["serde"] }}
chrono = {{ version = "0.4", features = ["serde"] }}

[profile.dev]
debug = 0
incremental = false
"""


class Unit:
    """A piece of generated Rust that is kept or dropped as a whole."""
    def __init__(self, name, body, call=True):
        self.name, self.body, self.call = name, body, call

PRELUDE = """#![allow(warnings, bindings_with_variant_name, text_direction_codepoint_in_literal)]
#![recursion_limit = "2048"]
"""
UNIT_PRELUDE = "use opg::*; use serde::Serialize; use std::collections::*; use rt::{always, never};\n"


class Ctx:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.dir = os.path.join(WORK, prop)
        self.violations = []
        self.known = []
        self.coverage = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[])
        self.assumptions = []
        self._distinct = set()
        self.listed = load_known()
        self.slowest_compile = 0
        os.makedirs(self.dir, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- observations
    def saw(self, key, trivial=False):
        """Count one evaluation; distinct by key."""
        self.coverage["evaluations"] += 1
        if not trivial:
            self._distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def count(self, name, k=1):
        self.coverage[name] = self.coverage.get(name, 0) + k

    def sample(self, s, limit=6):
        if len(self.coverage["samples"]) < limit:
            self.coverage["samples"].append(s)

    def violation(self, what, **detail):
        sig = detail.pop("sig", None)
        if sig is not None and (self.prop, sig) in self.listed:
            self.known.append((sig, what))
            return
        self.violations.append(dict(what=what, sig=sig, **detail))

    # ---- build
    def build(self, bins, sub="", toml=None, max_rounds=6):
        """bins: {name: [Unit]}. Compiles; units that do not compile are dropped and returned as
        [(bin, unit name, diagnostics)]."""
        d = os.path.join(self.dir, sub) if sub else self.dir
        src = os.path.join(d, "src", "bin")
        shutil.rmtree(os.path.join(d, "src"), ignore_errors=True)
        os.makedirs(src, exist_ok=True)
        open(os.path.join(d, "Cargo.toml"), "w").write((toml or CARGO_TOML).format(verif=VERIF))
        shutil.copy(os.path.join(VERIF, "rt", "work.lock"), os.path.join(d, "Cargo.lock"))
        td = target_dir()
        self.bin_dir = os.path.join(td, "debug")
        dropped = []
        live = {b: list(u) for b, u in bins.items()}
        for rnd in range(max_rounds):
            lines = {}
            for b, units in live.items():
                text, where = [PRELUDE], []
                line = PRELUDE.count("\n")
                for u in units:
                    s = "pub mod %s {\n%s%s\n}\n" % (u.name, UNIT_PRELUDE, u.body)
                    k = s.count("\n")
                    where.append((line + 1, line + k, u.name))
                    line += k
                    text.append(s)
                text.append("fn main() {\n let args: Vec<String> = std::env::args().skip(1).collect();\n")
                for u in units:
                    if u.call:
                        text.append(" if args.is_empty() || args.iter().any(|a| a == \"%s\") { rt::begin(\"%s\"); %s::run(); rt::end(\"%s\"); }\n"
                                    % (u.name, u.name, u.name, u.name))
                text.append("}\n")
                path = os.path.join(src, b + ".rs")
                new = "".join(text)
                if not os.path.exists(path) or open(path).read() != new:
                    open(path, "w").write(new)
                lines["src/bin/%s.rs" % b] = (b, where)
            bad, diags, ok = self._cargo(d, td, lines)
            if ok:
                self.live = live
                return dropped
            if not bad:
                raise Inconclusive("build failed outside the generated units:\n" + "\n".join(diags[:8])[:6000])
            for (b, name), ds in bad.items():
                dropped.append((b, name, ds))
                live[b] = [u for u in live[b] if u.name != name]
            live = {b: u for b, u in live.items()}
        raise Inconclusive("generated units still fail to compile after %d rounds" % max_rounds)

    def _cargo(self, d, td, lines):
        cmd = ["cargo", "build", "--offline", "--bins", "--keep-going", "--message-format=json", "--target-dir", td]
        with tempfile.TemporaryFile("w+") as fo, tempfile.TemporaryFile("w+") as fe:
            p = subprocess.Popen(cmd, cwd=d, env=ENV, stdout=fo, stderr=fe, start_new_session=True)
            limit = 240 if self.tier == "quick" else 1800   # CPU seconds of one compiler process; a few on the unchanged tree
            t0, stuck = time.time(), None
            while stuck is None:
                try:
                    p.wait(timeout=2)
                    break
                except subprocess.TimeoutExpired: pass
                worst = max(compilers(p.pid), default=(0, ""))
                self.slowest_compile = max(self.slowest_compile, worst[0])
                if worst[0] > limit: stuck = worst[1]
                elif time.time() - t0 > 6 * limit: stuck = ""
            if stuck is not None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
                if not stuck: raise Inconclusive("the build ran into its watchdog")
                self.violation("the compiler does not come to an end on a definition in the supported subset", cpu_seconds=limit, command=stuck[:600])
                raise Inconclusive("the compiler does not come to an end")
            fo.seek(0); fe.seek(0)
            p.stdout, p.stderr = fo.read(), fe.read()
        if p.returncode == 0:
            return {}, [], True
        bad, diags = {}, []
        for l in p.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get("reason") != "compiler-message": continue
            msg = m["message"]
            if msg.get("level") != "error": continue
            text = msg.get("rendered") or msg.get("message")
            diags.append(text)
            if m.get("target", {}).get("name") in ("opg", "opg_derive") and "/repo/" in m.get("manifest_path", ""):
                raise Inconclusive("the crate under test does not compile:\n" + text)
            hit = None
            for sp in self._spans(msg):
                for suffix, (b, where) in lines.items():
                    if sp["file_name"].endswith(suffix):
                        for lo, hi, name in where:
                            if lo <= sp["line_start"] <= hi: hit = (b, name)
                if hit: break
            if hit: bad.setdefault(hit, []).append(text)
        if not diags:
            diags = [p.stderr[-4000:]]
        return bad, diags, False

    def _spans(self, msg):
        todo = list(msg.get("spans", []))
        prim = [s for s in todo if s.get("is_primary")] or todo
        out = []
        for s in prim + todo:
            while s:
                out.append(s)
                e = s.get("expansion")
                s = e["span"] if e else None
        for c in msg.get("children", []):
            out += c.get("spans", [])
        return out

    # ---- run
    def run_bin(self, name, args=(), stdin=None, timeout=600, check=False):
        """Returns (events, returncode, stderr tail); the return code is HANG when the process had to be ended."""
        try:
            p = subprocess.run([os.path.join(self.bin_dir, name)] + list(args), input=stdin, env=ENV, cwd=self.dir,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            p = subprocess.CompletedProcess(name, HANG, e.stdout or b"", b"still running after %d s" % timeout)
        ev = []
        for l in p.stdout.split(b"\n"):
            if l.strip():
                try: ev.append(loads(l))
                except ValueError: ev.append(dict(ev="garbled", text=l[:500].decode("utf8", "replace")))
        return ev, p.returncode, p.stderr[-3000:].decode("utf8", "replace")

    def run_all(self, bins, timeout=None):
        """Run every unit of every binary; a unit whose process dies is reported as ('crash', unit)."""
        events, crashes = [], []
        timeout = timeout or (240 if self.tier == "quick" else 1500)
        for b in bins:
            names = [u.name for u in self.live[b] if u.call]
            todo = list(names)
            if not todo: continue
            guard = 0
            while todo:
                guard += 1
                if guard > 40: break
                ev, rc, err = self.run_bin(b, todo if len(todo) != len(names) else [], timeout=timeout)
                ended = {e["case"] for e in ev if e["ev"] == "end"}
                events += ev
                if rc == 0: break
                rest = [n for n in todo if n not in ended]
                if rc == HANG:
                    # only a unit that does not end on its own either is a verdict; a slow machine is none
                    if not rest or self.run_bin(b, rest[:1], timeout=120)[1] != HANG: raise Inconclusive("workload %s ran into its watchdog of %d s" % (b, timeout))
                    crashes.append((b, rest[0], rc, "does not come to an end"))
                    return events, crashes
                crashes.append((b, rest[0], rc, err))
                todo = rest[1:]
        return events, crashes

    # ---- verdict
    def finish(self, level="exploration"):
        cov = self.coverage
        cov["distinct_nontrivial"] = len(self._distinct)
        cov["slowest_compiler_process_cpu_s"] = round(self.slowest_compile)
        known_sigs = sorted({s for s, _ in self.known})
        cov["known_findings_observed"] = known_sigs
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for s in known_sigs:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.listed[(self.prop, s)]))
        if self.violations:
            rd = os.path.join(VERIF, "evidence", "replay", self.prop)
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "seed%d-%s.json" % (self.seed, self.tier))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                               how="VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (self.seed, self.tier, self.prop),
                               violations=self.violations[:50]), f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  -", json.dumps(v, default=str)[:900])
            print("%d violation(s)" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
            print("INCONCLUSIVE: the monitors observed nothing")
            return 2
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - self.t0))
        return 0


class Dup(ValueError):
    pass

def _pairs(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            d.setdefault("\0dups", []).append(k)
        d[k] = v
    return d

def loads(b):
    """JSON with key order kept and duplicate keys recorded under '\\0dups'."""
    return json.loads(b, object_pairs_hook=_pairs)


def find_dups(x, path="$"):
    if isinstance(x, dict):
        if "\0dups" in x: yield "%s: duplicate key %r" % (path, x["\0dups"])
        for k, v in x.items():
            if k != "\0dups": yield from find_dups(v, path + "." + k)
    elif isinstance(x, list):
        for i, v in enumerate(x): yield from find_dups(v, "%s[%d]" % (path, i))


def diff(a, b, path="$", limit=8):
    """Differences between two JSON values (objects unordered, arrays ordered)."""
    out = []
    def go(a, b, p):
        if len(out) >= limit: return
        if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)):
            out.append("%s: expected %s, observed %s" % (p, short(a), short(b)))
        elif isinstance(a, dict):
            for k in a:
                if k not in b: out.append("%s: missing key %r (expected %s)" % (p, k, short(a[k])))
                else: go(a[k], b[k], p + "." + k)
            for k in b:
                if k not in a: out.append("%s: unexpected key %r = %s" % (p, k, short(b[k])))
        elif isinstance(a, list):
            if len(a) != len(b): out.append("%s: expected %d items, observed %d: %s / %s" % (p, len(a), len(b), short(a), short(b)))
            for i, (x, y) in enumerate(zip(a, b)): go(x, y, "%s[%d]" % (p, i))
        elif a != b:
            out.append("%s: expected %s, observed %s" % (p, short(a), short(b)))
    go(a, b, path)
    return out

def short(x, n=200):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


def load_known():
    """known_findings.txt: `finding: property=<id> sig=<signature> <what fails>`; fixed entries suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l)
            if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def rs(s):
    """Rust string literal for arbitrary text."""
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch in '"\\': out.append("\\" + ch)
        elif 32 <= o < 127: out.append(ch)
        else: out.append("\\u{%x}" % o)
    return "".join(out) + '"'


def sized(r, base, big=(12, 60), p=.04):
    """A size: usually one of `base`, now and then far larger than any test would use."""
    return r.randint(*big) if r.random() < p else r.choice(base)

WILD = [(0x20, 0x7e), (0x20, 0x7e), (0, 0x1f), (0x7f, 0xff), (0x100, 0x24f), (0x400, 0x4ff), (0x2000, 0x206f), (0x3040, 0x30ff), (0xfb00, 0xfdff), (0xff00, 0xffef), (0x1f300, 0x1f6ff), (0xe000, 0xe010), (0x10fff0, 0x10fffd)]
def wild(r):
    """Text of any characters and any length."""
    n = r.choice([1, 1, 2, 2, 3, 8, 8, 40, 256, 257, 1000]) if r.random() < .97 else r.choice([4096, 9000])
    if n > 40:
        w = "".join(chr(r.randint(*r.choice(WILD))) for _ in range(7)) + r.choice([" ", "\n", "x", ""])
        return (w * (n // len(w) + 1))[:n]
    return "".join(chr(r.randint(*r.choice(WILD))) for _ in range(n))


def yaml_diff(ctx, want, got):
    """Differences between the data and what its YAML text reads back as; None stands for data the YAML library itself cannot carry."""
    if got is None:
        ctx.count("yaml_beyond_the_library")
        return []
    ctx.count("yaml_read_back")
    return ["yaml: " + x for x in diff(want, got)][:3]
