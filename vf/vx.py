"""Extraction (tools/vx), assembly into one Verus file per unit, running Verus and reading its verdict per function."""
import json, os, re, subprocess, hashlib, time, threading, signal
from . import work
HERE = os.path.dirname(os.path.abspath(__file__))
VERUS = os.environ.get("VERUS", "verus")
_lock = threading.Lock(); _bin = None

def build():
    global _bin
    with _lock:
        if _bin: return _bin
        d = os.path.join(work.TARGET, "w", "vx")
        work.materialise({"tools/vx/Cargo.toml": "Cargo.toml", "tools/vx/src/main.rs": "src/main.rs"}, d); work.lock(d)
        r = work.sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml")])
        if r.returncode: raise work.BuildError("vx does not build:\n" + r.stdout[-4000:])
        _bin = os.path.join(work.ENV["CARGO_TARGET_DIR"], "debug", "vx")
        return _bin

def extract(reqs):
    r = subprocess.run([build()], input=json.dumps(reqs), text=True, capture_output=True, env=work.ENV)
    if r.returncode: raise work.BuildError("vx failed: " + r.stderr[-2000:])
    return json.loads(r.stdout)

_consts = None
def consts():
    """the string constants of /repo's own sources"""
    global _consts
    if _consts is None:
        _consts = {}
        for root, _, fs in os.walk(work.REPO):
            if "/target" in root or "/.git" in root: continue
            for f in fs:
                if f.endswith(".rs"):
                    for m in re.finditer(r'const\s+([A-Z][A-Z0-9_]*)\s*:\s*&(?:\'static\s+)?str\s*=\s*"((?:[^"\\]|\\.)*)"', open(os.path.join(root, f)).read()): _consts[m.group(1)] = m.group(2)
    return _consts

def prelude_text(names): return "".join(open(os.path.join(HERE, "verus", p + ".rs")).read() for p in names)
class Fn:
    """one extracted function and what became of it"""
    def __init__(s, path, item): s.path = path; s.item = item; s.lines = None; s.status = None; s.msgs = []; s.contract = False; s.drop = False; s.why = ""

KW = "if|else|match|loop|return|in|while|for|let|mut"
def pretty(t):
    """line breaks outside of string literals, so that error positions mean something"""
    out = []; i = 0; n = len(t); d = 0
    while i < n:
        c = t[i]
        if c == '"':
            j = i + 1
            while t[j] != '"': j += 2 if t[j] == "\\" else 1
            out.append(t[i:j + 1]); i = j + 1; continue
        if c == "'" and i + 2 < n and (t[i + 2] == "'" or t[i + 1] == "\\"):
            j = t.index("'", i + 2); out.append(t[i:j + 1]); i = j + 1; continue
        if c in "([": d += 1
        if c in ")]": d -= 1
        out.append(c)
        if c in ";{}" : out.append("\n")
        i += 1
    return "".join(out)

def strip_parens(t): return t

CL = "__vx_closure ! ("
def closures(t, ann):
    """__vx_closure!(k; arg; ret; {spec}; {exec}) -> Verus closure with its contract, and the predicate as a ghost argument"""
    while CL in t:
        i = t.rindex(CL); j = i + len(CL); d = 1; parts = []; cur = j
        while d:
            c = t[j]
            if c == '"':
                j += 1
                while t[j] != '"': j += 2 if t[j] == "\\" else 1
            elif c in "([{": d += 1
            elif c in ")]}": d -= 1
            elif c == ";" and d == 1: parts.append(t[cur:j].strip()); cur = j + 1
            j += 1
        parts.append(t[cur:j - 1].strip())
        k, arg, ret, sp, ex = parts
        mm = re.search(r"\. x_(\w+) \(\s*$", t[:i]); a = ann.get(int(k)) or (mm and ann.get(mm.group(1))) or ann.get("*") or {}
        ty = a.get("ty"); aa = arg + (": " + ty if ty else "")
        ga = arg + (": " + a["gty"] if a.get("gty") else (": " + ty if ty else ""))
        if ret == "bool": r = "|%s| -> (__r: bool) ensures __r == (%s) %s, Ghost(|%s| %s)" % (aa, sp, ex, ga, sp)
        elif a.get("ens"): r = "|%s| -> (__r: %s) ensures %s %s" % (aa, a.get("ret", "_"), a["ens"].replace("$", arg), ex)
        else: r = "|%s| -> (__r: %s) ensures xsame(__r, (%s)) %s" % (aa, a.get("ret", "_"), sp, ex)
        t = t[:i] + r + t[j:]
    return t

def clean_ws(s): return re.sub(r"\s+", " ", s)

class Unit:
    """name, sources [(file under /repo, configuration)] or texts, prelude files, pre (specifications and lemmas, text),
    items {path: {c: contract, loops: {k: text}, pre: {k: text}, lbody: {k: text}, entry: text, ret:, inputs:, cl: {k: {..}}}}"""
    def __init__(s, name, sources, pre="", post="", items=None, prelude=("core",), skip=(), impl_extra=None, rlimit=30, props=None, cfg=None, drop_types=(), trusted=(), head="", text_sources=None, itemfn=None, allow_new=False, canary_skip=(), inherent=(), flags=()):
        s.inherent = set(inherent)
        s.name = name; s.sources = sources; s.pre = pre; s.post = post; s.items = items or {}; s.prelude = prelude; s.skip = set(skip); s.impl_extra = impl_extra or {}
        s.rlimit = rlimit; s.flags = list(flags); s.on = None; s.props = props or {}; s.cfg = cfg or {}; s.drop_types = set(drop_types); s.trusted = list(trusted); s.head = head; s.text_sources = text_sources; s.itemfn = itemfn; s.allow_new = allow_new; s.canary_skip = set(canary_skip)

    def assemble(s, external=(), canary=False):
        """the Verus text; `external`: functions whose body is dropped because Verus cannot read it"""
        if not hasattr(s, "_ex"):
            reqs = []
            for f, c in s.sources:
                q = dict(s.cfg); q.update(c); q.setdefault("consts", consts())
                q["file"] = os.path.join(work.REPO, f); reqs.append(q)
            for t, c in s.text_sources or []:
                q = dict(s.cfg); q.update(c); q["text"] = t; reqs.append(q)
            s._ex = extract(reqs)
        s.fns = {}; s.lits = set(); L = []
        body = []          # (text, fn or None)
        s.errors = [x["error"] for x in s._ex if "error" in x]
        if s.errors: return None
        for (f, c), x in zip(list(s.sources) + list(s.text_sources or []), s._ex): s._items(x["items"], c.get("module", ""), body, external, canary)
        allspec = s.pre + s.post + " ".join(json.dumps(i) .replace('\\"', '"') for i in s.items.values()) + json.dumps(s.impl_extra).replace('\\"', '"')
        for m in re.finditer(r'xlit_s\("((?:[^"\\]|\\.)*)"\)', allspec): s.lits.add(m.group(1))
        head = "#![allow(unused, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nuse std::ops::Range;\n%s\nverus! {\n" % s.head
        for p in s.prelude: head += open(os.path.join(HERE, "verus", p + ".rs")).read() + "\n"
        uses = re.findall(r"^broadcast use \{(.*?)\};\n", head, re.M)
        head = re.sub(r"^broadcast use \{.*?\};\n", "", head, flags=re.M) + "broadcast use {%s};\n" % ", ".join(uses)
        text = head + lits_lemma(s.lits) + "".join("pub open spec fn fl_%s() -> bool { %s }\n" % (f, "true" if s.on is None or f in s.on else "false") for f in s.flags) + s.pre + "\n"
        for t, fn in body:
            a = text.count("\n") + 1
            text += t + "\n"
            if fn: fn.lines = (a, text.count("\n"))
        text += s.post + "\n} // verus!\nfn main() {}\n"
        return text

    def _items(s, its, mod, body, external, canary):
        for it in its:
            k = it["kind"]
            if k in ("struct", "enum"):
                if it["path"] in s.drop_types: continue
                body.append((("#[derive(Clone, Copy)]\n" if "Copy" in it["derives"] else "") + pretty(it["text"]), None))
                n = it["path"]
                for v, t in it.get("from", []):
                    body.append(("impl XFrom<%s> for %s { open spec fn from_s(t: %s) -> %s { %s::%s(t) } fn x_from(t: %s) -> (r: %s) { %s::%s(t) } }" % (t, n, t, n, n, v, t, n, n, v), None))
                g = it.get("generics", "")
                gg = "<" + ",".join(x.split(":")[0].strip() for x in g.strip("<> ").split(",")) + ">" if g else ""
                if "Clone" in it["derives"]: body.append(("impl%s XClone for %s%s { #[verifier::external_body] fn x_clone(&self) -> (r: Self) { unimplemented!() } }" % (g, n, gg), None))
                if "PartialEq" in it["derives"]: body.append(("impl%s XEq<%s%s> for %s%s { open spec fn eq_s(&self, o: &%s%s) -> bool { *self == *o } #[verifier::external_body] fn x_eq(&self, o: &%s%s) -> (r: bool) { unimplemented!() } }" % (g, n, gg, n, gg, n, gg, n, gg), None))
                if "Default" in it["derives"] and k == "struct":
                    fs = it["fields"]; tup = fs and fs[0] == "0"
                    mk = lambda e: (n + "(" + ", ".join(e for f in fs) + ")") if tup else n + " { " + ", ".join("%s: %s" % (f, e) for f in fs) + " }"
                    body.append(("impl%s XDefault for %s%s { open spec fn default_s() -> Self { %s } fn x_default() -> (r: Self) { %s } }" % (g, n, gg, mk("XDefault::default_s()"), mk("XDefault::x_default()")), None))
                if it.get("default"): body.append(("impl XDefault for %s { open spec fn default_s() -> Self { %s::%s } fn x_default() -> (r: Self) { %s::%s } }" % (n, n, it["default"], n, it["default"]), None))
                if n in s.impl_extra: body.append((s.impl_extra[n], None))
            elif k == "fn": s._fn(it, mod, body, external, canary)
            elif k == "impl":
                fns = [f for f in it["fns"] if not f["test"] and not s.skipped(f, mod)]
                tr = it["trait"]
                if not fns and not (tr and ("<%s as %s>" % (it["owner"], tr.split("<")[0].strip())) in s.impl_extra): continue
                if tr:
                    key = "<%s as %s>" % (it["owner"], tr.split("<")[0].strip())
                    if key in s.skip: continue
                    if key in s.inherent: tr = None
                if tr:
                    tr2 = tr.replace("From <", "XFrom <").replace("Default", "XDefault").replace("FromStr", "XFromStr") if not tr.startswith("X") else tr
                    body.append(("impl %s %s for %s %s {\n%s" % (it["generics"], tr2, it["ty"], it["where"], s.impl_extra.get(key, "")), None))
                else: body.append(("impl %s %s %s {" % (it["generics"], it["ty"], it["where"]), None))
                for f in fns: s._fn(f, mod, body, external, canary, tr)
                body.append(("}", None))
            elif k == "mod": s._items(it["items"], mod, body, external, canary)

    def fpath(s, f, mod): return (mod + "::" if mod else "") + f["path"]
    def skipped(s, f, mod):
        p = s.fpath(f, mod)
        return p in s.skip or any(x.endswith("*") and p.startswith(x[:-1]) for x in s.skip)

    def _fn(s, f, mod, body, external, canary, tr=None):
        p = s.fpath(f, mod)
        if f["test"] or s.skipped(f, mod): return
        fn = Fn(p, f); s.fns[p] = fn
        spec = s.items.get(p) or (s.itemfn(p, f) if s.itemfn else None)
        fn.contract = spec is not None; spec = spec or {}
        name = f["name"]
        if tr: name = {"from": "x_from", "default": "x_default", "from_str": "x_from_str", "eq": "x_eq", "clone": "x_clone"}.get(name, name) if not tr.startswith("X") or True else name
        elif mod: name = mod.replace("::", "_") + "_" + name if not f["path"].count("::") else name
        if "rename" in spec: name = spec["rename"]
        s.lits |= set(f["lits"])
        ret = spec.get("ret", f["ret"]); inputs = spec.get("inputs", f["inputs"])
        sig = "%sfn %s%s(%s)%s %s" % ("" if tr else "pub ", name, "<" + f["generics"] + ">" if f["generics"] and "generics" not in spec else ("<" + spec["generics"] + ">" if spec.get("generics") else ""), inputs, " -> (r: %s)" % ret if ret else "", f["where"] if "where" not in spec else spec["where"])
        b = closures(f["body"], spec.get("cl", {}))
        for k, t in spec.get("pre", {}).items(): b = re.sub(r"__vx_pre ! \(%d\) ;" % k, lambda m: t, b)
        for k, t in spec.get("lbody", {}).items(): b = re.sub(r"__vx_lbody ! \(%d\) ;" % k, lambda m: t, b)
        b = re.sub(r"__vx_pre ! \((\d+)\) ;", lambda m: ("let ghost __s%s = __it%s@;" % (m.group(1), m.group(1)) if "let mut __it%s =" % m.group(1) in b else ""), b)
        b = re.sub(r"__vx_lbody ! \(\d+\) ;", "", b)
        def inv(m):
            k = int(m.group(1)); t = spec.get("loops", {}).get(k, "")
            if "decreases" not in t and re.search(r"let mut __it%d\b" % k, b): t += "\n decreases __it%d@.len()," % k
            return "loop\n" + t + "\n{"
        b = re.sub(r"loop \{ __vx_inv ! \((\d+)\) ;", inv, b)
        if spec.get("sub"):
            for x, y in spec["sub"]: b = b.replace(x, y)
        attrs = spec.get("attrs", "#[verifier::loop_isolation(false)]" if f["loops"] else "")
        attrs += "\n#[verifier::exec_allows_no_decreases_clause]"
        contract = spec.get("c", "")
        attrs = "#[verifier::spinoff_prover]\n" + attrs
        if p in external or spec.get("trusted"):
            fn.drop = True
            t = "#[verifier::external_body]\n%s\n%s\n{ unimplemented!() }" % (sig, contract)
        else:
            entry = spec.get("entry", "")
            ent = "proof { lits(); }" if True else ""
            if canary == True and p not in s.canary_skip: ent += " assert(false);"
            t = "%s\n%s\n%s\n{\n%s %s\n%s\n}" % (attrs, sig, contract, ent, entry, pretty(b))
        body.append((t, fn))
        if canary == "exit" and fn.contract and not fn.drop and not tr and p not in s.canary_skip:
            # a copy of the function that promises false: it must fail, or the assumed contracts contradict each other
            cf = Fn(p + "!exit", f); s.fns[p + "!exit"] = cf; i = contract.find("ensures")
            body.append((t.replace(sig, sig.replace("fn " + name, "fn " + name + "__exit", 1), 1).replace(contract, (contract if i < 0 else contract[:i]) + "\nensures false,", 1) if contract else t.replace(sig, sig.replace("fn " + name, "fn " + name + "__exit", 1) + "\nensures false,", 1), cf))

def lits_lemma(lits):
    """string literals are pairwise distinct: lid numbers them; those of one length differ in some character"""
    ls = sorted(lits); ix = {l: i for i, l in enumerate(ls)}
    q = lambda l: json.dumps(l, ensure_ascii=False)
    by = {}; t = ""; grp = []
    for l in ls: by.setdefault(len(l), []).append(l)
    for n, g in sorted(by.items()):
        ens = []; pr = ""
        for i, a in enumerate(g):
            pr += "reveal_strlit(%s); assert(xlit_s(%s)@.len() == %d);\n" % (q(a), q(a), n); ens.append("xlit_s(%s)@.len() == %d, lid_%d(xlit_s(%s)) == %d" % (q(a), n, n, q(a), ix[a]))
            for b in g[:i]:
                k = [j for j in range(n) if a[j] != b[j]][0]
                pr += "assert(xlit_s(%s)@[%d] != xlit_s(%s)@[%d]);\n" % (q(a), k, q(b), k)
        t += "#[verifier::opaque]\npub open spec fn lid_%d(s: XStr) -> int { " % n + "".join("if s == xlit_s(%s) { %d } else " % (q(l), ix[l]) for l in g) + "{ -1 } }\n"
        t += "#[verifier::spinoff_prover] pub proof fn lits_%d() ensures %s, { %s reveal(lid_%d); }\n" % (n, ", ".join(ens), pr, n); grp.append("lits_%d();" % n)
    t += "#[verifier::opaque]\npub open spec fn lid(s: XStr) -> int { " + "".join("if s@.len() == %d { lid_%d(s) } else " % (n, n) for n in sorted(by)) + "{ -1 } }\n"
    t += "#[verifier::spinoff_prover] #[verifier::rlimit(100)] pub proof fn lits()\n ensures " + "".join("lid(xlit_s(%s)) == %d, xlit_s(%s)@.len() == %d, " % (q(l), i, q(l), len(l)) for i, l in enumerate(ls)) + "true,\n{\n" + " ".join(grp) + " reveal(lid);\n"
    return t + "}\n"

DEADLINE = None  # set by check.py for the quick tier: later verifier runs end here and count as out of reach
def run_verus(text, name, rlimit=30, threads=4, timeout=400, extra=()):
    d = os.path.join(work.TARGET, "verus"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".rs")
    with open(p, "w") as f: f.write(text)
    t0 = time.time()
    env = dict(os.environ); env.pop("RUSTUP_TOOLCHAIN", None); env["RUST_MIN_STACK"] = str(1 << 28)
    if DEADLINE: timeout = max(20, min(timeout, DEADLINE - t0))
    P = subprocess.Popen([VERUS, p, "--output-json", "--multiple-errors", "4", "--rlimit", str(rlimit), "--num-threads", str(threads), "--time", *extra], text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, start_new_session=True)
    try: so, se = P.communicate(timeout=timeout); r = subprocess.CompletedProcess(P.args, P.returncode, so, se)
    except subprocess.TimeoutExpired:
        try: os.killpg(P.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        P.communicate(); return dict(timeout=True, errors=[], verified=0, nerr=0, ok=False, smt_ms=0, ms=int(1000 * (time.time() - t0)), raw="timeout")
    js = {}
    try: js = json.loads(r.stdout[r.stdout.index("{"):])
    except Exception: pass
    vr = js.get("verification-results", {})
    errs = []
    for m in re.finditer(r"^error(\[E\d+\])?: (.*)\n((?:(?!^error|^warning).*\n?)*)", r.stderr, re.M):
        loc = re.findall(r"^ *(?:-->|:::) .*?:(\d+):\d+$", m.group(3), re.M)
        errs.append(dict(code=m.group(1) or "", msg=m.group(2), lines=[int(x) for x in loc], text=m.group(0)[:1500]))
    smt = js.get("times-ms", {}).get("smt", {}).get("total", 0) if isinstance(js.get("times-ms", {}).get("smt"), dict) else 0
    return dict(ok=bool(vr.get("success")), verified=vr.get("verified", 0), nerr=vr.get("errors", 0), vir=vr.get("encountered-vir-error", not vr), errors=errs, smt_ms=smt, ms=int(1000 * (time.time() - t0)), raw=r.stderr[-6000:], timeout=False)

PROOF_ERR = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic", "loop ensures not satisfied", "possible division by zero", "decreases not satisfied", "unable to prove", "recommendation", "possible bit shift", "could not prove termination", "loop invariant", "failed", "not satisfied", "requirement", "not covered")
def is_proof_err(e): return not e["code"] and any(x in e["msg"] for x in PROOF_ERR)
