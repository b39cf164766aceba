"""Building and driving the harness crates (the generator driver vgen and the per-check runner) from /repo's tree."""
import json, os, subprocess, shutil, time, select, tempfile, resource
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=os.path.join(TARGET, "cargo"), CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV.setdefault("HOME", "/root")

class BuildError(Exception): pass

def sh(cmd, **kw): return subprocess.run(cmd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def materialise(src, dst, subst=()):
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    for a, b in src.items():
        s = open(os.path.join(VERIF, a)).read()
        for x, y in subst: s = s.replace(x, y)
        write(os.path.join(dst, b), s)
def write(p, s):
    if os.path.exists(p) and open(p).read() == s: return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f: f.write(s)

def lock(dst):
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(dst, "Cargo.lock"))

def build_gen():
    d = os.path.join(TARGET, "w", "gen")
    materialise({"tools/gen/Cargo.toml": "Cargo.toml", "tools/gen/src/main.rs": "src/main.rs", "tools/json.rs": "src/json.rs"}, d,
                [("/repo/", REPO + "/"), ('#[path = "../../json.rs"]\n', "")])
    lock(d)
    r = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml")])
    global GEN_FULL; GEN_FULL = True
    if r.returncode:      # an internal API moved: fall back to the public one
        GEN_FULL = False
        r = sh(["cargo", "build", "--offline", "--no-default-features", "--manifest-path", os.path.join(d, "Cargo.toml")])
    if r.returncode: raise BuildError("vgen does not build against /repo:\n" + r.stdout[-6000:])
    return os.path.join(ENV["CARGO_TARGET_DIR"], "debug", "vgen")

def _limits(): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def drive(binary, reqs, timeout=60):
    """one JSON reply per request; a process death (stack overflow, abort, 6 GB) is the reply {'crash': ...} of the request it
    happened on, no reply within `timeout` seconds {'hang': true}. After a hang the limit is 5 s, the same operation on the same
    type is not tried again, and after twelve hangs nothing is (the reply is the same: these runs have failed anyway)."""
    n = len(reqs); out = [None] * n; hung = set()
    keys = [(r.get("op"), r.get("schema"), r.get("type"), r.get("path")) for r in reqs]
    while True:
        todo = [i for i in range(n) if out[i] is None]
        for i in todo:
            if len(hung) >= 12 or keys[i] in hung: out[i] = {"hang": True}
        todo = [i for i in todo if out[i] is None]
        if not todo: return out
        with tempfile.TemporaryFile() as inp, tempfile.TemporaryFile() as err:
            inp.write("".join(json.dumps(reqs[i]) + "\n" for i in todo).encode()); inp.seek(0)
            p = subprocess.Popen([binary], stdin=inp, stdout=subprocess.PIPE, stderr=err, env=ENV, preexec_fn=_limits)
            buf = b""; hang = False; fd = p.stdout.fileno(); k = 0
            while True:
                if not select.select([fd], [], [], 5 if hung else timeout)[0]: hang = True; p.kill(); break
                d = os.read(fd, 1 << 20)
                if not d: break
                buf += d
                if b"\n" in d:
                    *lines, buf = buf.split(b"\n")
                    for l in lines:
                        if l and k < len(todo): out[todo[k]] = json.loads(l.decode("utf-8", "replace")); k += 1
            p.wait(); p.stdout.close(); err.seek(0)
            if k < len(todo):
                if hang: hung.add(keys[todo[k]]); out[todo[k]] = {"hang": True}
                else: out[todo[k]] = {"crash": "exit %s: %s" % (p.returncode, err.read().decode("utf-8", "replace")[-300:])}

def repo_compiles():
    return sh(["cargo", "build", "--offline", "--workspace", "--manifest-path", os.path.join(REPO, "Cargo.toml")]).returncode == 0

class Gen:
    def __init__(self): self.bin = build_gen()
    def __call__(self, reqs, timeout=60):
        out = [None] * len(reqs); n = min(8, max(1, len(reqs) // 8))
        def one(w):
            for i, r in zip(range(w, len(reqs), n), drive(self.bin, reqs[w::n], timeout)): out[i] = r
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(n)))
        return out

def rs(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

def glue(types):
    o = ["\nuse crate::json::J as VJ__;\nuse crate::V as VV__;\n"]
    arms = []; en = []
    for t in types:
        N = t["name"]
        if t["kind"] in ("struct", "tuple"):
            fs = [(f[0], f[0]) for f in t["fields"]] if t["kind"] == "struct" else [(str(i), str(i)) for i in range(len(t["fields"]))]
            o.append("impl VV__ for %s { fn build(j: &VJ__) -> ::std::result::Result<Self, ::std::string::String> { Ok(%s { %s }) } fn dump(&self) -> VJ__ { VJ__::Obj(vec![%s]) } }\n" % (
                N, N, ", ".join("%s: VV__::build(j.get(%s).ok_or(%s)?)?" % (f, rs(k), rs("missing " + k)) for f, k in fs),
                ", ".join("(%s.to_string(), VV__::dump(&self.%s))" % (rs(k), f) for f, k in fs)))
        else:
            b = []; d = []
            for v, fs in t["variants"]:
                if fs:
                    b.append("if let Some(x) = j.get(%s) { return Ok(%s::%s(VV__::build(x)?)); }" % (rs(v), N, v))
                    d.append("%s::%s(x) => VJ__::Obj(vec![(%s.to_string(), VV__::dump(x))])" % (N, v, rs(v)))
                else:
                    b.append("if j.str() == Some(%s) { return Ok(%s::%s); }" % (rs(v), N, v))
                    d.append("%s::%s => VJ__::s(%s)" % (N, v, rs(v)))
            o.append("impl VV__ for %s { fn build(j: &VJ__) -> ::std::result::Result<Self, ::std::string::String> { %s Err(%s.to_string()) } fn dump(&self) -> VJ__ { match self { %s } } }\n" % (
                N, " ".join(b), rs("no variant of " + N), ", ".join(d)))
            if t["variants"] and all(not fs for _, fs in t["variants"]):
                rows = ", ".join("crate::enum_row(%s, %s::%s.as_str(), %s::%s.to_string(), <%s as ::std::str::FromStr>::from_str(%s::%s.as_str()).ok().map(|x| VV__::dump(&x)))" % (rs(v), N, v, N, v, N, N, v) for v, _ in t["variants"])
                en.append("%s => match req.gs(\"op\").unwrap() { \"enumtable\" => return VJ__::Arr(vec![%s]), \"enumparse\" => return match <%s as ::std::str::FromStr>::from_str(req.gs(\"s\").unwrap()) { Ok(v) => VJ__::Obj(vec![(\"ok\".to_string(), VV__::dump(&v))]), Err(e) => crate::err_json(&e) }, _ => {} }" % (rs(N), rows, N))
        arms.append("%s => crate::exec::<%s>(req, |s| %s::from_xml(s), |v| v.to_xml())" % (rs(N), N, N))
    o.append("pub fn call__(req: &VJ__) -> VJ__ { let ty = req.gs(\"type\").unwrap(); match ty { %s _ => {} } match ty { %s, _ => VJ__::Null } }\n" % (
        " ".join(e + "," for e in en), ", ".join(arms) if arms else '"" => VJ__::Null'))
    return "".join(o)

class Runner:
    """modules: {key: (code, types)}; key becomes the module name. The modules are spread over several crates (compiled in
    parallel); a module that does not compile is left out and reported in .errors"""
    SHARDS = 8
    def __init__(self, name, modules, macros=()):
        self.errors = {}
        base = os.path.join(TARGET, "w", "run_" + name)
        items = [(k, code + glue(types)) for k, (code, types) in modules.items()]
        # through the proc macro itself: (key, schema path, types)
        items += [(k[0], "pub use self::inner::*;\n#[xsd::all(schema = %s)]\npub mod inner {}\n" % rs(k[1]) + glue(k[2])) for k in macros]
        n = min(self.SHARDS, max(1, sum(len(c) for _, c in items) // 60000 + 1))
        load = [0] * n; self.shard = {}
        for k, c in sorted(items, key=lambda x: -len(x[1])):
            i = load.index(min(load)); load[i] += len(c) + 4000; self.shard[k] = i
        ct = open(os.path.join(VERIF, "tools/run/Cargo.toml.in")).read().replace("/repo/", REPO + "/")
        head, tail = ct.split("[profile.dev]")
        write(os.path.join(base, "Cargo.toml"), "[workspace]\nresolver = \"2\"\nmembers = [%s]\n[profile.dev]%s" % (", ".join('"s%d"' % i for i in range(n)), tail.replace("[workspace]", "")))
        lock(base)
        main = open(os.path.join(VERIF, "tools/run/main.rs.in")).read()
        for i in range(n):
            d = os.path.join(base, "s%d" % i)
            write(os.path.join(d, "Cargo.toml"), head.replace('"vrun"', '"vrun_%s_%d"' % (name, i)))
            write(os.path.join(d, "src/json.rs"), open(os.path.join(VERIF, "tools/json.rs")).read())
        for k, c in items: write(os.path.join(base, "s%d" % self.shard[k], "src", "m_%s.rs" % k), c)
        live = [k for k, _ in items]
        for attempt in range(8):
            for i in range(n):
                mine = [k for k in live if self.shard[k] == i]
                mods = "".join("#[path = \"m_%s.rs\"] mod m_%s;\n" % (k, k) for k in mine)
                disp = "".join("        %s => m_%s::call__(req),\n" % (rs(k), k) for k in mine)
                write(os.path.join(base, "s%d" % i, "src/main.rs"), main.replace("//MODS", mods).replace("//DISPATCH", disp))
            r = subprocess.run(["cargo", "build", "--offline", "--workspace", "--keep-going", "--message-format=json", "--manifest-path", os.path.join(base, "Cargo.toml")], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode == 0: break
            bad = {}
            for l in r.stdout.splitlines():
                if not l.startswith("{"): continue
                m = json.loads(l)
                if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
                for sp in m["message"]["spans"]:
                    f = os.path.basename(sp["file_name"])
                    if f.startswith("m_") and f[2:-3] in live: bad.setdefault(f[2:-3], []).append(m["message"]["rendered"])
            if not bad: raise BuildError("runner does not build:\n" + r.stderr[-3000:] + "".join(json.loads(l)["message"]["rendered"] for l in r.stdout.splitlines() if '"level":"error"' in l)[:3000])
            for k, v in bad.items(): self.errors[k] = "\n".join(v)[:3000]; live.remove(k)
        else: raise BuildError("runner does not build")
        self.live = set(live); self.n = n
        self.bins = [os.path.join(ENV["CARGO_TARGET_DIR"], "debug", "vrun_%s_%d" % (name, i)) for i in range(n)]
    def __call__(self, reqs, timeout=60):
        parts = [[] for _ in range(self.n)]
        for i, q in enumerate(reqs): parts[self.shard.get(q.get("schema"), i % self.n)].append(i)
        out = [None] * len(reqs)
        def one(w):
            for i, r in zip(parts[w], drive(self.bins[w], [reqs[i] for i in parts[w]], timeout)): out[i] = r
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, [w for w in range(self.n) if parts[w]]))
        return out
