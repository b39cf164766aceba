"""Bounded executable counterpart: runs generated code on generated values and documents and compares with the oracle."""
import random, json, copy
from . import work, corpus, ir, doc, value, bind
from .value import Gen as VGen, Err, enc_elem, dec_type
from .doc import E

class Violation:
    def __init__(self, props, schema, what, case): self.props = set(props); self.schema = schema; self.what = what; self.case = case
    def __repr__(self): return "%s [%s] %s" % (sorted(self.props), self.schema, self.what)

class Mod:
    """a schema with its generated code"""
    pass

def load(gen, cor):
    """generate code for every schema of the corpus; -> {key: Mod}, violations"""
    paths = corpus.put(cor); keys = list(cor); mods = {}; viol = []
    for k, r in zip(keys, gen([{"op": "gen", "path": paths[k]} for k in keys])):
        m = Mod(); m.key = k; m.path = paths[k]; m.tags = cor[k]["tags"]; m.files = cor[k]["files"]; m.gen = r
        m.ir = ir.Schema(paths[k])
        if not r.get("ok") or "synerr" in r:
            viol.append(Violation({"GEN"}, k, "supported schema is not accepted: %s" % (r.get("msg") or r.get("panic") or r.get("crash") or r.get("synerr") or r), {"schema": m.files}))
            continue
        m.types = r["types"]; m.code = r["code"]; mods[k] = m
    return mods, viol

def roots(m):
    """(label, qname of the document element, IR type, generated type local name)"""
    out = []
    for kind, qn in m.ir.order:
        t = m.ir.elements[qn] if kind == "element" else m.ir.types[qn]
        out.append((kind, qn, t))
    return out

def mutations(rnd, e, n):
    """single-fault variants of document tree e"""
    out = []
    ops = ["del", "ren", "ns", "delattr", "nsattr", "badtext", "swap", "nest", "dup", "root", "rootns", "badattr", "empty", "insert", "wstext"]
    for _ in range(n):
        d = e.copy(); op = rnd.choice(ops); all_ = list(d.walk()); x = rnd.choice(all_)
        if op == "root": d.name = d.name + "X"
        elif op == "rootns": d.ns = "urn:other" if not d.ns or rnd.random() < .5 else None
        elif op in ("del", "ren", "ns", "swap", "dup", "insert"):
            ps = [y for y in all_ if y.elems()]
            if not ps: continue
            p = rnd.choice(ps); i = rnd.choice([k for k, y in enumerate(p.kids) if isinstance(y, E)])
            if op == "del": del p.kids[i]
            elif op == "ren": p.kids[i].name += "X"
            elif op == "ns": p.kids[i].ns = None if p.kids[i].ns else "urn:t"
            elif op == "dup": p.kids.insert(i, p.kids[i].copy())
            elif op == "insert": p.kids.insert(i, E(None, "unknownElement"))
            else:
                if i + 1 >= len(p.kids) or not isinstance(p.kids[i + 1], E): continue
                p.kids[i], p.kids[i + 1] = p.kids[i + 1], p.kids[i]
        elif op in ("delattr", "nsattr", "badattr"):
            ps = [y for y in all_ if y.attrs]
            if not ps: continue
            p = rnd.choice(ps); k = rnd.choice(list(p.attrs)); v = p.attrs.pop(k)
            if op == "nsattr": p.attrs[("urn:foreign", k[1])] = v
            elif op == "badattr": p.attrs[k] = rnd.choice(["no such value", "", "-", v + " ", " " + v, v.upper(), v + v[-1:]])
        elif op == "empty":
            ps = [y for y in all_ if y.kids]
            if not ps: continue
            rnd.choice(ps).kids = []
        else:
            ps = [y for y in all_ if not y.elems()]
            if not ps: continue
            p = rnd.choice(ps)
            if op == "wstext":
                v = "".join(y for y in p.kids if isinstance(y, str)); p.kids = [rnd.choice([" " + v, v + " ", v.upper(), v.lower(), v + v[-1:], v[1:]])]
                if p.kids == [v]: continue
            elif op == "nest": p.kids = [E(None, "inner")] + p.kids
            else: p.kids = [rnd.choice(["no such value", "yes", "x", "-1", "2147483648", "1.5", "9223372036854775808", "true ", "abc"])]
        out.append((op, d))
    return out

def err_matches(err, got):
    g = got.get("err")
    if not g: return False
    if g["kind"] != err.kind: return False
    for k, v in err.kw.items():
        if k == "type":
            if g.get("type") not in (v, ir.CANON.get(v)): return False
        elif g.get(k) != v: return False
    return True

def has_all(t, seen=None):
    seen = seen or set(); t = ir.resolve(t)
    if id(t) in seen or not isinstance(t, ir.Complex): return False
    seen.add(id(t)); c = t.content
    return bool(c) and c[0] in ("all", "repall")

class Session:
    def __init__(self, name, cor, seed=1, nvals=8, nmut=10, macros=(), gen=None):
        self.gen = gen or work.Gen(); self.seed = seed; self.nvals = nvals; self.nmut = nmut
        self.mods, self.viol = load(self.gen, cor)
        self.stats = {"schemas": len(cor), "types": 0, "values": 0, "docs": 0, "mutants": 0, "perms": 0}
        self.samples = []
        self.runner = work.Runner(name, {k: (m.code, m.types) for k, m in self.mods.items()},
                                  [("mac_" + k, self.mods[k].path, self.mods[k].types) for k in macros if k in self.mods])
        for k, e in self.runner.errors.items():
            self.viol.append(Violation({"COMPILE"}, k, "generated code does not compile: " + e.strip().split("\n")[0], {"schema": cor.get(k, cor.get(k[4:], {})).get("files"), "rustc": e}))
        for k in macros:
            if "mac_" + k in self.runner.live:
                m = copy.copy(self.mods[k]); m.key = "mac_" + k; self.mods["mac_" + k] = m
        self.mods = {k: m for k, m in self.mods.items() if k in self.runner.live}
        self.enum_tables()

    def enum_tables(self):
        reqs = []; idx = []
        for k, m in self.mods.items():
            for t in m.types:
                if t["kind"] == "enum" and t["variants"] and all(not f for _, f in t["variants"]): reqs.append({"op": "enumtable", "schema": k, "type": t["name"]}); idx.append((k, t["name"]))
        for k in self.mods: self.mods[k].enums = {}; self.mods[k].enumrows = {}
        for (k, t), r in zip(idx, self.runner(reqs)):
            self.mods[k].enumrows[t] = r
            if isinstance(r, list): self.mods[k].enums[t] = {row[1]: row[0] for row in r}
        for k, m in self.mods.items(): m.binder = bind.Binder(m.types, m.enums)

    def v(self, props, m, what, **case):
        case["schema"] = m.files; case["main"] = m.path
        self.viol.append(Violation(props, m.key, what, case))

    def run(self, keys=None):
        reqs = []; meta = []
        for k, m in self.mods.items():
            if keys is not None and k not in keys: continue
            rnd = random.Random("%s/%s" % (self.seed, k))
            for kind, qn, t in roots(m):
                if k.startswith(("seq_", "choice", "simple_", "attr_", "all_", "grp", "rep", "ext")) and qn[1] in ("aStr", "bNum", "cFix", "dColor", "fShorT", "hPoinQ", "kInL", "ColorT", "ShortT", "CountT", "PointT", "EmptyT", "AmountT", "PickT") and not k.startswith("seq_11"): continue
                self.stats["types"] += 1
                try: rty = m.binder.rust_type_name(qn[1])
                except bind.Mismatch as ex: self.v({"C03", "C01", "C02"}, m, "%s %s: %s" % (kind, qn[1], ex)); continue
                seen = set()
                for i in range(self.nvals + 2):
                    g = VGen(rnd, ["min", "max"][i] if i < 2 else "rand")
                    v = g.type(t)
                    if repr(v) in seen: continue
                    seen.add(repr(v))
                    e = enc_elem(qn, t, v)
                    try: back = dec_type(t, e)
                    except Err as ex: raise AssertionError("oracle rejects its own document: %r %s %s" % (ex, k, doc.render(e)))
                    if back != v: continue           # grouping not determined by the document
                    try: j = m.binder.put(v, rty)
                    except bind.Mismatch as ex:
                        pr = {"occ": {"C07"}, "lit": {"C08"}, "enum": {"C09"}, "shape": set()}[ex.kind] | {"C01", "C02", "C03"}
                        if kind: self.v(pr | ({"C17"} if "attr" in m.tags else set()), m, "%s %s: %s" % (kind, qn[1], ex), value=repr(v))
                        break
                    self.stats["values"] += 1
                    reqs.append({"op": "write", "schema": k, "type": rty, "val": j}); meta.append(("w", m, rty, qn, t, v, e, j))
                    x = doc.render(e, i % 4)
                    self.stats["docs"] += 1
                    reqs.append({"op": "parse", "schema": k, "type": rty, "xml": x}); meta.append(("p", m, rty, qn, t, v, x, j))
                    if has_all(t):
                        for _ in range(3):
                            d = e.copy(); rnd.shuffle(d.kids); y = doc.render(d, 0); self.stats["perms"] += 1
                            reqs.append({"op": "parse", "schema": k, "type": rty, "xml": y}); meta.append(("all", m, rty, qn, t, v, y, j))
                    for op, d in mutations(rnd, e, self.nmut if i < 6 else 2):
                        try:
                            if (d.ns, d.name) != qn: exp = Err("MissingElement", name=qn[1], namespace=qn[0])
                            else:
                                try: exp = dec_type(t, d)
                                except Err as ex: exp = ex
                        except KeyError: continue
                        y = doc.render(d, 0); self.stats["mutants"] += 1
                        reqs.append({"op": "parse", "schema": k, "type": rty, "xml": y}); meta.append(("m", m, rty, qn, t, exp, y, op))
                    if i == 0:
                        y = doc.render(e, 0)[:-2]
                        reqs.append({"op": "parse", "schema": k, "type": rty, "xml": y}); meta.append(("m", m, rty, qn, t, Err("Xml"), y, "malformed"))
        for q, mt, r in zip(reqs, meta, self.runner(reqs)): self.judge(q, mt, r)
        return self.viol

    def judge(self, q, mt, r):
        kind, m, rty, qn, t = mt[:5]
        dead = r.get("panic") or r.get("crash") or (r.get("hang") and "hang") if isinstance(r, dict) else None
        isattr = {"C17"} if m.tags & {"attr", "ext", "extattr"} else set()
        if kind == "w":
            v, e, j = mt[5:]
            if dead: self.v({"C01", "C02"}, m, "%s: to_xml/from_xml panics: %s" % (rty, dead), value=j); return
            if "builderr" in r: self.v({"C03"}, m, "%s: value cannot be built: %s" % (rty, r["builderr"]), value=j); return
            if "werr" in r: self.v({"C01", "C02"}, m, "%s: to_xml fails: %s" % (rty, r["werr"]), value=j); return
            try:
                got = doc.norm(doc.parse(r["xml"])); want = doc.norm(e)
                if got != want:
                    what = diff(want, got)
                    self.v({"C02"} | (isattr if "attribute" in what else set()), m, "%s: wrong document: %s" % (rty, what), value=j, got=r["xml"], want=doc.render(e))
            except doc.BadXml as ex: self.v({"C02"}, m, "%s: document not well-formed: %s" % (rty, ex), value=j, got=r["xml"])
            if not r.get("eq"):
                self.v({"C01"}, m, "%s: round trip: %s" % (rty, r.get("backerr") or "value differs"), value=j, xml=r["xml"], back=r.get("back"), backerr=r.get("backerr"))
            if len(self.samples) < 3: self.samples.append({"schema": m.key, "type": rty, "value": j, "xml": r["xml"][:600]})
        elif kind in ("p", "all"):
            v, x, j = mt[5:]
            props = {"C03"} if kind == "p" else {"C16"}
            if dead: self.v(props | {"C04"}, m, "%s: from_xml panics: %s" % (rty, dead), xml=x); return
            if r.get("ok") != j:
                pr = set(props)
                if "err" not in r and "attr" in m.tags: pr |= {"C17"}
                if "err" in r and isattr and (r["err"]["kind"] == "MissingAttribute"): pr |= {"C17"}
                if kind == "p" and has_all(t): pr |= {"C16"}
                self.v(pr, m, "%s: parsing a valid document gives %s" % (rty, json.dumps(r.get("err") or r.get("ok"))[:300]), xml=x, want=j, got=r)
        elif kind == "m":
            exp, x, op = mt[5:]
            if dead: self.v({"C04"}, m, "%s: from_xml panics: %s" % (rty, dead), xml=x); return
            if isinstance(exp, Err):
                if not err_matches(exp, r):
                    pr = {"C04"}
                    if exp.kind == "MissingAttribute" and isattr: pr |= {"C17"}
                    if exp.kind == "InvalidVariant" and "ok" in r: pr |= {"C09"}
                    if exp.kind == "ParseType" and "err" in r and r["err"]["kind"] == "ParseType": pr |= {"C08"}
                    if exp.kind == "MissingElement" and has_all(t) and "ok" in r: pr |= {"C16"}
                    self.v(pr, m, "%s: %s expected, got %s" % (rty, exp, json.dumps(r)[:300]), xml=x, mutation=op, got=r)

def diff(a, b, path=""):
    if isinstance(a, str) or isinstance(b, str): return "%s: text %r, expected %r" % (path, b, a)
    p = path + "/" + str(a[1])
    if a[:2] != b[:2]: return "%s: element %r, expected %r" % (path, b[:2], a[:2])
    if a[2] != b[2]: return "%s: attribute list %r, expected %r" % (p, b[2], a[2])
    for x, y in zip(a[3], b[3]):
        if x != y: return diff(x, y, p)
    return "%s: children %r, expected %r" % (p, [k if isinstance(k, str) else k[1] for k in b[3]], [k if isinstance(k, str) else k[1] for k in a[3]])
