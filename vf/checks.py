"""The bounded (executable) counterpart of every property: real code of /repo run on enumerated and random cases, judged by
an independent oracle. It supplies the failing inputs for the deductive part and stands in, labelled bounded, for what is out
of the verifier's reach."""
import random, json, os, re, itertools
from . import work, corpus, tvcorpus, bounded, ir, doc
from .corpus import add, root, schema, occ, P, CONF, part, HDR
XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'

class Out:
    def __init__(s): s.viol = []; s.stats = {}; s.samples = []; s.rules = []; s.nontrivial = 0; s.known = []
    def bad(s, what, key="", **case): s.viol.append(dict(what=what, key=key, case=case))
    def count(s, k, n=1): s.stats[k] = s.stats.get(k, 0) + n
    def sample(s, x):
        if len(s.samples) < 4: s.samples.append(x)

def sel(cor, *prefixes): return {k: c for k, c in cor.items() if k.startswith(prefixes)}

def tvsel(pid): return {k: c for k, c in tvcorpus.build().items() if pid in c["tags"]}

def session(out, pid, name, cor, seed, thorough=False, nvals=8, nmut=10, anyprop=False, macros=()):
    s = bounded.Session(name, cor, seed=seed, nvals=nvals * (4 if thorough else 1), nmut=nmut * (3 if thorough else 1), macros=macros)
    s.run()
    for v in s.viol:
        if anyprop or pid in v.props or v.props & {"GEN", "COMPILE"}: out.bad(v.what, v.schema, **v.case)
    for k, n in s.stats.items(): out.count(k, n)
    out.samples += s.samples
    return s

def full(seed, thorough, nrand=12):
    return {**corpus.repo_schemas(), **corpus.enumerated(), **tvcorpus.build(), **corpus.random_schemas(seed, nrand * (8 if thorough else 1))}

# ------------------------------------------------------------------ C01..C04
def c01(out, seed, th):
    s = session(out, "C01", "c01", {**full(seed, th), **sel(corpus.known(), "kf_same_name", "kf_mixed_form")}, seed, th, nmut=0, macros=("seq_mix_q", "grp_seq_u")); shape(out, s, "values")
def c02(out, seed, th):
    s = session(out, "C02", "c02", {**full(seed, th), **sel(corpus.known(), "kf_mixed_form")}, seed, th, nmut=0); shape(out, s, "values")
def c03(out, seed, th):
    s = session(out, "C03", "c03", {**full(seed, th), **sel(corpus.known(), "kf_choice_empty")}, seed, th, nmut=0); shape(out, s, "docs")
    q = {"op": "parse", "schema": "kf_choice_empty", "type": "Root", "xml": '<root xmlns="urn:t"/>'}
    if "kf_choice_empty" in s.runner.live:
        r = s.runner([q])[0]
        if "ok" not in r and "value" not in r: out.bad("choice with an alternative with minOccurs=0 and empty content: %s" % json.dumps(r), "kf_choice_empty", request=q, got=r)
def c04(out, seed, th):
    s = session(out, "C04", "c04", full(seed, th), seed, th, nvals=6, nmut=16); shape(out, s, "mutants")
def shape(out, s, k):
    out.nontrivial += s.stats[k]
    out.rules.append("corpus schemas (every construct x occurrence x namespace configuration) and random schemas; random values within the schema, documents rendered in four styles, and single-fault mutants of them, judged by an independent interpretation of the schema (vf/ir.py, vf/value.py); non-trivial: %s compared" % k)

# ------------------------------------------------------------------ C05 child cursor
def c05(out, seed, th):
    run = work.Runner("c05", {})
    rnd = random.Random(seed); reqs = []; want = []
    NSS = [None, "urn:1", "urn:2"]; NM = ["a", "b", "ab"]
    def mk(depth, force=None):
        """-> (xml builder parts) element: returns function of offset producing (text, tree)"""
        ns, n = force or (rnd.choice(NSS), rnd.choice(NM))
        kids = []
        for _ in range(rnd.randint(0, 5) if depth == 0 else rnd.choice([0, 0, 1, 2])):
            r = rnd.random()
            kids.append("txt" if r < .15 else "<!--c-->" if r < .25 else "<?a b?>" if r < .3 else mk(depth + 1))
        return (ns, n, kids)
    def emit(e, off, isroot):
        ns, n, kids = e
        tag = ({None: "", "urn:1": "p:", "urn:2": "q:"}[ns]) + n
        s = "<" + tag + (' xmlns:p="urn:1" xmlns:q="urn:2"' if isroot else "") + ">"
        ch = []
        for k in kids:
            if isinstance(k, str): s += k
            else:
                t, tree = emit(k, off + len(s), False); s += t; ch.append(tree)
        return s + "</" + tag + ">", dict(q=(ns, n), at=off, kids=ch)
    def model(tree, ops, res):
        cur = list(tree["kids"])
        for op in ops:
            k, n, ns = op[0], op[1], op[2]
            hit = lambda c: c["q"] == (ns, n)
            miss = {"err": ["MissingElement", n, ns]}
            if k == "peek": res.append(bool(cur) and hit(cur[0])); continue
            i = None
            if k in ("next", "trynext"): i = 0 if cur and hit(cur[0]) else None
            else: i = next((j for j, c in enumerate(cur) if hit(c)), None)
            if i is None: res.append(miss if k.startswith("try") else None); continue
            c = cur.pop(i); res.append(c["at"])
            if len(op) > 3: model(c, op[3], res)
    def ops(depth=0):
        return [[rnd.choice(["peek", "next", "child", "child", "next", "trynext", "trychild"]), rnd.choice(NM), rnd.choice(NSS)] +
                ([ops(1)] if depth == 0 and rnd.random() < .2 else []) for _ in range(rnd.randint(1, 10 if depth == 0 else 4))]
    def aimed(tree):
        # requests that mostly name children that exist
        o = []
        for _ in range(rnd.randint(2, 12)):
            q = rnd.choice(tree["kids"])["q"] if tree["kids"] and rnd.random() < .8 else (rnd.choice(NSS), rnd.choice(NM))
            o.append([rnd.choice(["peek", "next", "child", "child", "trynext", "trychild"]), q[1], q[0]])
        return o
    for i in range(20000 if th else 4000):
        e = mk(0); x, tree = emit(e, 0, True)
        if rnd.random() < .15: rq = (rnd.choice(NSS), rnd.choice(NM))
        else: rq = tree["q"]
        o = aimed(tree) if i % 2 else ops()
        res = []
        if rq == tree["q"]: res.append(tree["at"]); model(tree, o, res)
        else: res.append({"err": ["MissingElement", rq[1], rq[0]]})
        reqs.append({"op": "cursor", "xml": x, "root": [rq[1], rq[0]], "ops": o}); want.append(res)
        if len(tree["kids"]) > 1 and len(res) > 2: out.nontrivial += 1
    # exhaustive: three children over two names, all histories of three requests over them
    kidsets = list(itertools.product("ab", repeat=3))
    for ks in kidsets:
        x, tree = emit((None, "r", [(None, k, []) for k in ks]), 0, True)
        for h in itertools.product([(o, n) for o in ("peek", "next", "child") for n in "ab"], repeat=3):
            for tail in ("next", "child"):
                o = [[a, b, None] for a, b in h] + [[tail, ks[0], None]] + [[t, k, None] for k in ks for t in ("next",)]
                res = [0]; model(tree, o, res)
                reqs.append({"op": "cursor", "xml": x, "root": ["r", None], "ops": o}); want.append(res); out.nontrivial += 1
    for q, w, r in zip(reqs, want, run(reqs)):
        out.count("histories")
        got = r.get("out")
        g = [({"err": [y["err"]["kind"], y["err"].get("name"), y["err"].get("namespace")]} if isinstance(y, dict) and "err" in y else y) for y in got] if got is not None else r
        if g != w: out.bad("request history gives %s, expected %s" % (json.dumps(g), json.dumps(w)), "cursor", request=q, got=r, want=w)
    out.sample(reqs[1]); out.sample(reqs[-1])
    out.rules.append("random and small exhaustive histories of peek/next/child requests on elements with up to 5 children; non-trivial: two or more children and two or more requests (or from the exhaustive set)")

# ------------------------------------------------------------------ C06 writer context
def c06(out, seed, th):
    run = work.Runner("c06", {})
    rnd = random.Random(seed); reqs = []; want = []
    from xml.parsers import expat
    def parse(x):
        p = expat.ParserCreate(); p.ordered_attributes = True; st = []; top = []
        def start(n, a):
            at = [(a[i], a[i + 1]) for i in range(0, len(a), 2)]
            e = [n, [y for y in at if not y[0].startswith("xmlns")], sorted(y for y in at if y[0].startswith("xmlns")), []]
            (st[-1][3] if st else top).append(e); st.append(e)
        def end(n): st.pop()
        def ch(c): st[-1][3].append(c)
        p.buffer_text = True
        p.StartElementHandler = start; p.EndElementHandler = end; p.CharacterDataHandler = ch
        p.Parse(x.encode(), True)
        return top
    cnt = [0]
    def nm(): cnt[0] += 1; return "n%d" % cnt[0]
    def body(depth):
        """operations on a context (before, between and after writes) and the events they must cause"""
        ops = []
        for _ in range(rnd.randint(0, 4)):
            r = rnd.random()
            if r < .45: ops.append(["attr", nm(), rnd.choice(["v", "", "a<b", "x y", 'q"q', "é"])])
            elif r < .65: ops.append(["ns", nm(), "urn:" + nm()])
            elif r < .75 and not any(o[0] == "dns" for o in ops): ops.append(["dns", "urn:" + nm()])
            else: ops.append(["wrap", [o for o in body(depth + 1) if o[0] not in ("dns",)]]) if depth < 3 else None
        return [o for o in ops if o]
    def sets(ops):
        a = []; n = []
        for o in ops:
            if o[0] == "attr": a.append((o[1], o[2]))
            elif o[0] == "ns": n.append(("xmlns:" + o[1], o[2]))
            elif o[0] == "dns": n.append(("xmlns", o[1]))
            elif o[0] == "wrap": x, y = sets(o[1]); a += x; n += y
        return a, n
    def strip(ops):   # several default namespaces in one context would leave the outcome open
        seen = [False]
        def go(l):
            r = []
            for o in l:
                if o[0] == "dns":
                    if seen[0]: continue
                    seen[0] = True
                if o[0] == "wrap": o = ["wrap", go(o[1])]
                r.append(o)
            return r
        return go(ops)
    def elem(depth):
        name = nm(); ops = []; exp = []
        pre = strip(body(0)); ops += pre; a, n = sets(pre)
        # virtual start/end inside a wrap must write nothing
        if rnd.random() < .4: ops.append(["wrap", [["start"], ["attr", "w" + name, "1"], ["end"], ["wrap", [["start"], ["end"]]]]]); a.append(("w" + name, "1"))
        ops.append(["start"]); me = [name, a, sorted(n), []]; exp.append(me)
        if rnd.random() < .5: ops.append(["text", "t"]); me[3].append("t")
        if depth < 3:
            for _ in range(rnd.choice([0, 0, 1, 2])):
                nm2, o2, e2 = elem(depth + 1); ops.append(["elem", nm2, o2]); me[3] += e2
        ops.append(["end"])
        if depth and rnd.random() < .3:      # the same context written again carries only what was set since
            a, n = ([], [])
            if rnd.random() < .6:
                p2 = strip(body(1)); ops += p2; a, n = sets(p2)
            ops += [["start"], ["end"]]; exp.append([name, a, sorted(n), []])
        return name, ops, exp
    for _ in range(12000 if th else 3000):
        cnt[0] = 0; name, ops, exp = elem(0)
        reqs.append({"op": "ctx", "name": name, "ops": ops}); want.append(exp)
        if len(exp[0][1]) + len(exp[0][2]) > 1: out.nontrivial += 1
    def canon(l): return [x if isinstance(x, str) else [x[0], [tuple(a) for a in x[1]], [tuple(a) for a in x[2]], canon(x[3])] for x in l]
    for q, w, r in zip(reqs, want, run(reqs)):
        out.count("histories")
        if "xml" not in r or "werr" in r: out.bad("writing fails: %s" % json.dumps(r)[:300], "ctx", request=q, got=r); continue
        try: g = parse(r["xml"])
        except expat.ExpatError as ex: out.bad("not well-formed: %s: %s" % (ex, r["xml"][:300]), "ctx", request=q, got=r); continue
        if canon(g) != canon(w): out.bad("wrote %s, expected %s" % (r["xml"][:300], json.dumps(w)[:300]), "ctx", request=q, got=r, want=w)
    out.sample(reqs[0]); out.sample(reqs[7])
    out.rules.append("random trees of attribute, namespace, wrap, start, end and text calls; non-trivial: at least two attributes or namespaces on the outermost tag")

# ------------------------------------------------------------------ helpers for schema-level checks
def typ(r, name):
    for t in r["types"]:
        if t["name"].lower().replace("_", "") == name.lower(): return t
    return None
def field(t, name):
    for f in t["fields"]:
        if f[0].replace("r#", "").replace("_", "").lower() == name.lower(): return f[1]
    return None
def wrapped(t):
    """(optional, list, inner)"""
    o = l = False
    if isinstance(t, list) and t[0] == "Option": o = True; t = t[1]
    if isinstance(t, list) and t[0] == "Vec": l = True; t = t[1]
    return o, l, t
LITRUST = {"str": "String", "bool": "bool", "i64": "i64", "u64": "u64", "i32": "i32", "dec": "Decimal", "f32": "f32"}
def failed(r): return r.get("panic") or r.get("crash") or r.get("hang")
def gen_data(gen, datas): return gen([{"op": "gen", "path": os.path.join(work.TARGET, "w", "nofile.xsd"), "data": d} for d in datas])

# ------------------------------------------------------------------ C07 occurrences
def c07(out, seed, th):
    gen = work.Gen(); rnd = random.Random(seed)
    MIN = [None, "0", "1", "2", "3", "7", "00", "007", "4294967295", "bad:x", "bad:-1", "bad:1.5", "bad:", "bad:unbounded", "bad:1 2", "bad:0x1"]
    MAX = [None, "0", "1", "2", "3", "10", "002", "4294967295", "unbounded", "bad:x", "bad:-1", "bad:", "bad:Unbounded", "bad:UNBOUNDED", "bad:unbound", "bad:2.0"]
    MIN += [str(rnd.randint(0, 2**32 - 1)) for _ in range(2)]; MAX += [str(rnd.randint(0, 2**32 - 1)) for _ in range(2)]
    def at(n, v): return "" if v is None else ' %s="%s"' % (n, v[4:] if v.startswith("bad:") else v)
    E1 = '<xs:element name="el" type="xs:string"%s/>'
    POS = {  # position -> (schema body with %s for the occurrence attributes, min only?, struct name, field finder)
     "element": (root("<xs:sequence>" + E1 + "</xs:sequence>"), False, "root", "el"),
     "element inline": (root('<xs:sequence><xs:element name="el"%s><xs:complexType><xs:sequence><xs:element name="q" type="xs:int"/></xs:sequence></xs:complexType></xs:element></xs:sequence>'), False, "root", "el"),
     "element inline enum": (root('<xs:sequence><xs:element name="el"%s><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="a"/></xs:restriction></xs:simpleType></xs:element></xs:sequence>'), False, "root", "el"),
     "element untyped": (root('<xs:sequence><xs:element name="el"%s/></xs:sequence>'), False, "root", "el"),
     "element fixed": (root('<xs:sequence><xs:element name="el" type="xs:int" fixed="3"%s/></xs:sequence>'), False, "root", "el"),
     "element of named type": (root('<xs:sequence><xs:element name="el" type="T"%s/></xs:sequence>') + '<xs:complexType name="T"/>', False, "root", "el"),
     "element ref": (root('<xs:sequence><xs:element ref="el"%s/></xs:sequence>') + '<xs:element name="el" type="xs:int"/>', False, "root", "el"),
     "element in nested sequence": (root('<xs:sequence><xs:sequence><xs:element name="ka" type="xs:int"/><xs:element name="lb" type="xs:int"%s/></xs:sequence></xs:sequence>'), False, None, "lb"),
     "element in complexContent": ('<xs:complexType name="B"/>' + '<xs:complexType name="T"><xs:complexContent><xs:extension base="B"><xs:sequence><xs:element name="el" type="xs:int"%s/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>', False, None, "el"),
     "choice in sequence": (root('<xs:sequence><xs:choice%s><xs:element name="ka" type="xs:int"/><xs:element name="lb" type="xs:int"/></xs:choice></xs:sequence>'), False, "root", None),
     "sequence in sequence": (root('<xs:sequence><xs:sequence%s><xs:element name="ka" type="xs:int"/><xs:element name="lb" type="xs:int"/></xs:sequence></xs:sequence>'), True, "root", None),
     "content sequence": (root('<xs:sequence%s><xs:element name="ka" type="xs:int"/><xs:element name="lb" type="xs:int"/></xs:sequence>'), False, "root", None),
     "sequence of extension": ('<xs:complexType name="B"/>' + '<xs:complexType name="T"><xs:complexContent><xs:extension base="B"><xs:sequence%s><xs:element name="ka" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>', True, "T", 1),
     "element in choice": (root('<xs:choice><xs:element name="ka" type="xs:int"%s/><xs:element name="lb" type="xs:int"/></xs:choice>'), False, "variant", "ka"),
     "element in all": (root('<xs:all><xs:element name="el" type="xs:int"%s/><xs:element name="lb" type="xs:int"/></xs:all>'), True, "root", "el"),
    }
    cases = []
    for pos, (body, minonly, st, fl) in POS.items():
        for mn in MIN:
            for mx in ([None] if minonly else MAX):
                cases.append((pos, mn, mx, HDR % ("", body % (at("minOccurs", mn) + at("maxOccurs", mx)))))
    for (pos, mn, mx, data), r in zip(cases, gen_data(gen, [c[3] for c in cases])):
        out.count("evaluations")
        body, minonly, st, fl = POS[pos]
        case = dict(position=pos, minOccurs=mn, maxOccurs=mx, schema=data)
        bad = any(v and v.startswith("bad:") for v in (mn, mx))
        if failed(r): out.bad("panic on %s min=%s max=%s: %s" % (pos, mn, mx, failed(r)), "occ", **case); continue
        if bad:
            out.nontrivial += 1
            if r.get("ok"): out.bad("%s: occurrence values min=%r max=%r are accepted" % (pos, mn, mx), "occ", **case)
            elif r.get("xsd") != "ParseInt": out.bad("%s: min=%r max=%r: wrong error %s" % (pos, mn, mx, r.get("msg")), "occ", **case)
            continue
        if not r.get("ok"): out.bad("%s: min=%r max=%r is rejected: %s" % (pos, mn, mx, r.get("msg")), "occ", **case); continue
        opt = mn is not None and int(mn) == 0
        lst = mx == "unbounded" or (mx is not None and int(mx) > 1)
        if (opt, lst) != (False, False): out.nontrivial += 1
        if st == "variant":
            got = None
            for t in r["types"]:
                if t["kind"] == "enum":
                    for v, fs in t["variants"]:
                        if v.lower() == fl: got = wrapped(fs[0])[1]
            if got is not lst: out.bad("%s: max=%r generates %s" % (pos, mx, r["types"]), "occ", **case)
            continue
        f = None
        if st is None:
            for t in r["types"]:
                if t["kind"] == "struct" and field(t, fl): f = field(t, fl)
        else:
            t = typ(r, st)
            if t and fl is None:
                # content sequence with 1..1 (or 1..0) has no group of its own
                if pos == "content sequence" and not lst and mn in (None, "1") and len(t["fields"]) == 2: continue
                f = t["fields"][0][1] if len(t["fields"]) == 1 else None
            elif t and fl == 1: f = next((g for g in (x[1] for x in t["fields"]) if wrapped(g)[2] != "B"), None)
            elif t: f = field(t, fl)
        if f is None: out.bad("%s: min=%r max=%r: field not found in %s" % (pos, mn, mx, r["types"]), "occ", **case); continue
        o, l, _ = wrapped(f)
        if (o, l) != (opt, lst): out.bad("%s: min=%r max=%r generates %s" % (pos, mn, mx, f), "occ", **case)
        if out.stats["evaluations"] % 400 == 3: out.sample(dict(case, generated=f))
    out.rules.append("every position an occurrence can be declared at x the listed and random minimum/maximum values; non-trivial: value other than the default 1/1")

# ------------------------------------------------------------------ C08 built-in types
BUILTIN_OTHER = "byte short unsignedInt unsignedLong unsignedShort unsignedByte double gYear gMonth gDay gYearMonth gMonthDay anyURI QName NOTATION normalizedString token language NMTOKEN NMTOKENS Name NCName ID IDREF IDREFS ENTITY ENTITIES nonPositiveInteger negativeInteger anySimpleType anyAtomicType dateTimeStamp yearMonthDuration dayTimeDuration untyped String Int strin stringg".split()
def c08(out, seed, th):
    gen = work.Gen(); rnd = random.Random(seed)
    other = BUILTIN_OTHER + ["x" + "".join(rnd.choice("abcdefgIT") for _ in range(rnd.randint(1, 6))) for _ in range(5)]
    POS = {
     "element": (root('<xs:sequence><xs:element name="el" type="%s"/></xs:sequence>'), ("root", "el")),
     "list element": (root('<xs:sequence><xs:element name="el" type="%s" maxOccurs="unbounded"/></xs:sequence>'), ("root", "el")),
     "optional element": (root('<xs:sequence><xs:element name="el" type="%s" minOccurs="0"/></xs:sequence>'), ("root", "el")),
     "all member": (root('<xs:all><xs:element name="el" type="%s"/></xs:all>'), ("root", "el")),
     "choice": (root('<xs:choice><xs:element name="el" type="%s"/><xs:element name="zz" type="xs:string"/></xs:choice>'), ("variant", "el")),
     "required attribute": (root('', '<xs:attribute name="el" type="%s" use="required"/>'), ("root", "el")),
     "attribute": (root('', '<xs:attribute name="el" type="%s"/>'), ("root", "el")),
     "global element": ('<xs:element name="el" type="%s"/>', ("el", 0)),
     "restriction base": ('<xs:simpleType name="ST"><xs:restriction base="%s"><xs:pattern value="x"/></xs:restriction></xs:simpleType>' + root('<xs:sequence><xs:element name="el" type="ST"/></xs:sequence>'), ("root", "el")),
     "inline restriction base": (root('<xs:sequence><xs:element name="el"><xs:simpleType><xs:restriction base="%s"/></xs:simpleType></xs:element></xs:sequence>'), ("root", "el")),
     "attribute restriction base": (root('', '<xs:attribute name="el" use="required"><xs:simpleType><xs:restriction base="%s"/></xs:simpleType></xs:attribute>'), ("root", "el")),
     "simpleContent base": (root('<xs:simpleContent><xs:extension base="%s"/></xs:simpleContent>'), ("root", None)),
     "nested": (root('<xs:sequence><xs:sequence minOccurs="0"><xs:choice><xs:element name="el" type="%s"/><xs:element name="zz" type="xs:string"/></xs:choice><xs:element name="yy" type="xs:int"/></xs:sequence></xs:sequence>'), ("variant", "el")),
    }
    HDRS = {"xs:": HDR % ("", "%s"), "y1.-_:": HDR.replace("%s>", '%s xmlns:y1.-_="http://www.w3.org/2001/XMLSchema">', 1) % ("", "%s"),
            "": HDR.replace("<xs:schema", '<xs:schema xmlns="http://www.w3.org/2001/XMLSchema"') % ("", "%s")}
    cases = []
    for pos, (body, where) in POS.items():
        for pre, hdr in HDRS.items():
            if pre == "" and "restriction base" in pos and "ST" in body: continue       # 'type="ST"' would be a built-in
            for n in list(ir.LITERAL) + (other if pre != "y1.-_:" else other[:3]):
                cases.append((pos, pre + n, n, hdr % (body % (pre + n)), where))
    for (pos, ref, n, data, where), r in zip(cases, gen_data(gen, [c[3] for c in cases])):
        out.count("evaluations"); case = dict(position=pos, reference=ref, schema=data)
        if failed(r): out.bad("panic at %s for %s: %s" % (pos, ref, failed(r)), "lit", **case); continue
        if n not in ir.LITERAL:
            out.nontrivial += 1
            if r.get("ok"): out.bad("%s: unsupported built-in %s is accepted" % (pos, ref), "lit", **case)
            elif r.get("xsd") != "UnsupportedType" or not re.search(r"\b%s\b" % re.escape(n), r.get("inner", "")): out.bad("%s: %s: the error does not name the type: %s" % (pos, ref, r.get("msg")), "lit", **case)
            continue
        if not r.get("ok"): out.bad("%s: built-in %s is rejected: %s" % (pos, ref, r.get("msg")), "lit", **case); continue
        out.nontrivial += n != "string"
        f = None
        if where[0] == "variant":
            for t in r["types"]:
                if t["kind"] == "enum":
                    for v, fs in t["variants"]:
                        if v.lower() == where[1]: f = fs[0]
        else:
            t = typ(r, where[0])
            if t:
                if where[1] is None: f = t["fields"][0][1] if t["kind"] == "struct" else t["fields"][0]
                elif where[1] == 0: f = t["fields"][0] if t["kind"] == "tuple" else None
                else: f = field(t, where[1])
        # a named type may be flattened or wrapped: follow tuple structs
        g = wrapped(f)[2] if f is not None else None
        for _ in range(4):
            t2 = next((t for t in r["types"] if t["name"] == g and t["kind"] == "tuple"), None)
            if not t2: break
            g = t2["fields"][0]
        if g != LITRUST[ir.LITERAL[n]]: out.bad("%s: %s generates %s" % (pos, ref, f), "lit", **case)
        if out.stats["evaluations"] % 300 == 5: out.sample(dict(case, generated=f))
    session(out, "C08", "c08", sel(corpus.enumerated(), "builtins_"), seed, th, nmut=40)
    out.rules.append("every built-in name (supported, unsupported, random) x every reference position x three ways of binding the XML Schema namespace; run-time parse errors through generated code; non-trivial: not xs:string")

# ------------------------------------------------------------------ C09 enumerations
def xesc(v): return v.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
def enum_corpus(seed, th):
    rnd = random.Random(seed); body = ""; lists = {}
    alpha = ["a", "b", "A", "B", "1", "2", "-", "_", " ", ".", "!", "?", "+", "é", "ß", "漢", "²", "Variant", "variant", "V", "self", "type", ":", "/", "%", "€", "0", "x", "\t"]
    fixed = [["Variant1", "", "!", "Variant2", "?", "Variant3"], ["", "Variant1"], ["!", "Variant1", "Variant2"], ["a", "A", "a ", " a", "a-", "-a"], ["1", "V1", "v1", "v 1", "v-1", "V-1", "1-"], ["self", "Self", "SELF", "self_"],
             ["ab", "aB", "Ab", "AB", "a b", "a_b", "a-b", "A-B", "A_B"], ["foo", "foo!", "foo?", "Variant1", "Variant2"], ["-", "--", "_", "__", " ", "  ", "- -"], ["²", "³", "x²", "1²", "Variant1"], ["true", "false", "True"], ["é", "É", "e"],
             ["<", ">", "&", "'", '"', "<a>"], ["Ok", "Err", "Some", "None"]]
    for i in range(len(fixed) + (120 if th else 40)):
        if i < len(fixed): vs = fixed[i]
        else:
            vs = []
            for _ in range(rnd.randint(1, 12)):
                v = "".join(rnd.choice(alpha) for _ in range(rnd.choice([0, 1, 1, 2, 2, 3])))
                if v not in vs: vs.append(v)
        n = "Ty%sq" % "".join("abcdefghij"[int(c)] for c in str(i))
        lists[n] = vs
        body += '<xs:simpleType name="%s"><xs:restriction base="xs:string">%s</xs:restriction></xs:simpleType>' % (n, "".join('<xs:enumeration value="%s"/>' % xesc(v) for v in vs))
    return {"enumlists": dict(files={"main.xsd": schema("n", body)}, main="main.xsd", tags={"enum"})}, lists
def c09(out, seed, th):
    cor, lists = enum_corpus(seed, th)
    cor.update(sel(corpus.enumerated(), "enums_"))
    s = session(out, "C09", "c09", cor, seed, th)
    m = s.mods.get("enumlists"); rnd = random.Random(seed)
    if not m: return
    rows = {k.lower(): (k, v) for k, v in m.enumrows.items()}
    reqs = []; meta = []
    allv = sorted({v for l in lists.values() for v in l})
    for n, vs in lists.items():
        out.count("lists")
        if len(vs) > 1: out.nontrivial += 1
        if n.lower() not in rows: out.bad("no enum is generated for %s" % n, "enum", values=vs); continue
        k, tab = rows[n.lower()]
        if not isinstance(tab, list): out.bad("enum %s: %s" % (n, tab), "enum", values=vs); continue
        if sorted(r[1] for r in tab) != sorted(vs): out.bad("variants of %r convert to %r" % (vs, [r[1] for r in tab]), "enum", values=vs, rows=tab); continue
        for ident, a, d, back in tab:
            if a != d: out.bad("as_str %r and Display %r of variant %s differ" % (a, d, ident), "enum", values=vs, rows=tab)
            if back != ident: out.bad("variant %s of %r: %r converts back to %r" % (ident, vs, a, back), "enum", values=vs, rows=tab)
        byv = {r[1]: r[0] for r in tab}
        for v in vs: reqs.append({"op": "enumparse", "schema": "enumlists", "type": k, "s": v}); meta.append((vs, v, byv[v]))
        neg = {w for v in vs for w in (v + "x", v + " ", " " + v, v.upper(), v.lower(), v[:-1], v.capitalize(), v.replace("-", "_"), v.replace(" ", ""))} | set(byv.values()) | set(rnd.sample(allv, min(12, len(allv))))
        for w in sorted(neg - set(vs)): reqs.append({"op": "enumparse", "schema": "enumlists", "type": k, "s": w}); meta.append((vs, w, None))
    for (vs, w, want), r in zip(meta, s.runner(reqs)):
        out.count("conversions")
        if want is None:
            if "ok" in r or r.get("err", {}).get("kind") != "InvalidVariant" or r["err"].get("name") != w: out.bad("%r is not one of %r, but converts to %s" % (w, vs, json.dumps(r)), "enum", values=vs, string=w)
        elif r.get("ok") != want: out.bad("%r converts to %s, expected variant %s" % (w, json.dumps(r), want), "enum", values=vs, string=w)
    out.sample({"values": lists["Tyaq"], "rows": rows.get("tyaq", (0, 0))[1]})
    out.rules.append("hand-picked and random lists of distinct values (identifier-like, colliding after conversion, empty, symbolic, non-ASCII), conversions of listed and near-miss strings; non-trivial: two or more values")

# ------------------------------------------------------------------ C10 namespace registry
def c10(out, seed, th):
    gen = work.Gen(); rnd = random.Random(seed)
    if work.GEN_FULL:
        reqs = []
        pool = ["urn:%d" % i for i in range(40)] + ["", "urn:a", "urn:A", "urn:a ", "http://x/y", "http://x/y/", "ns1", "ns2", "é"]
        for i in range(2000 if th else 400):
            reqs.append({"op": "nsreg", "uris": [rnd.choice(pool[:rnd.randint(1, len(pool))]) for _ in range(rnd.randint(1, 60))]})
        for n in range(1, 5):
            for h in itertools.product(["a", "b", "c"], repeat=n): reqs.append({"op": "nsreg", "uris": list(h)})
        for q, r in zip(reqs, gen(reqs)):
            out.count("histories"); out.nontrivial += len(set(q["uris"])) > 1
            if failed(r): out.bad("panic: %s" % failed(r), "ns", request=q); continue
            seen = {}; prev = {}
            for u, (id_, got, uri, prefix, table) in zip(q["uris"], r["steps"]):
                why = None
                if uri != u: why = "identity of %r leads back to %r" % (u, uri)
                elif got != id_: why = "lookup of %r gives %r, registration gave %r" % (u, got, id_)
                elif u in seen and seen[u] != (id_, prefix): why = "%r changes from %r to %r" % (u, seen[u], (id_, prefix))
                seen[u] = (id_, prefix)
                if not why and len({a for a, _ in seen.values()}) != len(seen): why = "two namespaces share an identity: %r" % seen
                if not why and len({b for _, b in seen.values()}) != len(seen): why = "two namespaces share a prefix: %r" % seen
                if not why and sorted(map(tuple, table)) != sorted((a, v, b) for v, (a, b) in seen.items()): why = "the registry lists %r after %r" % (table, seen)
                if why: out.bad(why, "ns", request=q); break
        out.sample(reqs[0])
    # through schema parsing: imports that register the same namespaces in different orders
    cors = [multi_graph(random.Random(seed * 977 + i)) for i in range(120 if th else 40)]
    cor = {"ns%d" % i: c for i, c in enumerate(cors)}
    paths = corpus.put(cor)
    for (k, c), r in zip(cor.items(), gen([{"op": "gen", "path": paths[k]} for k in cor])):
        out.count("schemas")
        if not r.get("ok"): out.bad("not accepted: %s" % (r.get("msg") or failed(r)), "ns", files=c["files"]); continue
        if "namespaces" not in r: continue
        ns = r["namespaces"]; out.nontrivial += len(ns) > 1
        if len({n[0] for n in ns}) != len(ns) or len({n[1] for n in ns}) != len(ns) or len({n[2] for n in ns}) != len(ns): out.bad("identities, URIs and prefixes are not one to one: %r" % ns, "ns", files=c["files"])
        missing = c["uris"] - {n[1] for n in ns}
        if missing: out.bad("namespaces %r are not registered" % missing, "ns", files=c["files"])
    # run time: prefixes declared and used consistently
    session(out, "C10", "c10", {k: c for k, c in list(cor.items())[:8 if not th else 30]}, seed, th, nmut=0, anyprop=True)
    out.rules.append("random and small exhaustive registration histories; random include/import graphs; non-trivial: two or more namespaces")

# ------------------------------------------------------------------ multi-file schemas (C10, C11, C13)
def multi_graph(rnd, cycles=True, nfiles=None):
    """a random graph of schema files with cross references"""
    n = nfiles or rnd.randint(2, 6)
    uris = ["urn:n%d" % i for i in range(rnd.randint(1, 3))]
    files = []; qualified = rnd.random() < .6
    for i in range(n):
        d = rnd.choice(["", "sub/", "sub/deep/", "other/"]) if i else ""
        files.append(dict(path=d + ("main.xsd" if i == 0 else "f%d.xsd" % i), uri=rnd.choice(uris), inc=[]))
    for i in range(1, n): files[rnd.randrange(i)]["inc"].append(i)          # connected
    for _ in range(rnd.randint(0, n)):
        a, b = rnd.randrange(n), rnd.randrange(n)
        if (cycles or a < b) and b not in files[a]["inc"]: files[a]["inc"].append(b)
    LITS = ["string", "int", "long", "boolean", "decimal"]
    W = ["alpha", "bravo", "carol", "delta", "echo", "forte"]
    out = {}; defs = set()
    for i, f in enumerate(files):
        f["simple"] = W[i].capitalize() + "Sim"; f["enum"] = W[i].capitalize() + "Enu"; f["cplx"] = W[i].capitalize() + "Com"; f["el"] = W[i] + "Elm"; f["lit"] = LITS[i % 5]
    for i, f in enumerate(files):
        pref = {u: rnd.choice(["p%d", "q%d", "x%d"]) % j for j, u in enumerate(uris)}
        ref = lambda g, w: pref[files[g]["uri"]] + ":" + files[g][w]
        body = ""
        rnd.shuffle(f["inc"])
        for g in f["inc"]:
            loc = os.path.relpath(files[g]["path"], os.path.dirname(f["path"]) or ".")
            if rnd.random() < .3: loc = "./" + loc
            body += '<xs:%s schemaLocation="%s"/>' % ("include", loc) if files[g]["uri"] == f["uri"] else '<xs:import namespace="%s" schemaLocation="%s"/>' % (files[g]["uri"], loc)
        a, b, c = rnd.randrange(n), rnd.randrange(n), rnd.randrange(n)
        body += '<xs:simpleType name="%s"><xs:restriction base="xs:%s"/></xs:simpleType>' % (f["simple"], f["lit"])
        body += '<xs:simpleType name="%s"><xs:restriction base="xs:string"><xs:enumeration value="u"/><xs:enumeration value="v"/></xs:restriction></xs:simpleType>' % f["enum"]
        body += '<xs:complexType name="%s"><xs:sequence><xs:element name="s" type="%s"/><xs:element name="e" type="%s" minOccurs="0"/><xs:element name="k" type="%s" minOccurs="0"  maxOccurs="unbounded"/></xs:sequence><xs:attribute name="at" type="%s"/></xs:complexType>' % (f["cplx"], ref(a, "simple"), ref(b, "enum"), ref(c, "cplx"), ref(a, "enum"))
        body += '<xs:element name="%s"><xs:complexType><xs:sequence><xs:element name="c" type="%s"/><xs:element ref="%s" minOccurs="0"  maxOccurs="unbounded"/></xs:sequence></xs:complexType></xs:element>' % (f["el"], ref(b, "cplx"), ref(rnd.randrange(n), "el"))
        defs |= {(f["uri"], f[w]) for w in ("simple", "enum", "cplx", "el")}
        out[f["path"]] = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="%s"%s %s>%s</xs:schema>' % (f["uri"], ' elementFormDefault="qualified"' if qualified else "", " ".join('xmlns:%s="%s"' % (p, u) for u, p in pref.items()), body)
    return dict(files=out, main="main.xsd", tags={"multi"}, defs=defs, uris={f["uri"] for f in files}, lits={(f["uri"], f["simple"]): f["lit"] for f in files})

def c13(out, seed, th):
    gen = work.Gen()
    cors = {"mg%d" % i: multi_graph(random.Random(seed * 131 + i)) for i in range(400 if th else 120)}
    paths = corpus.put(cors); broken = []
    for (k, c), r in zip(cors.items(), gen([{"op": "gen", "path": paths[k]} for k in cors])):
        out.count("schemas"); out.nontrivial += len(c["files"]) > 2
        if not r.get("ok"): out.bad("file graph is not accepted: %s" % (r.get("msg") or failed(r) or r), "multi", files=c["files"]); continue
        if "elements" in r:
            have = {(e[0], e[1]) for e in r["elements"]}
            if not c["defs"] <= have: out.bad("definitions %r are missing" % sorted(c["defs"] - have), "multi", files=c["files"])
        names = {t["name"].lower() for t in r["types"]}
        if not {d[1].lower() for d in c["defs"]} <= names: out.bad("types %r are not generated" % sorted({d[1].lower() for d in c["defs"]} - names), "multi", files=c["files"])
        if len(broken) < 60: broken.append((k, c))
    # unreadable, malformed and invalid files somewhere in the graph
    reqs = []; want = []
    for i, (k, c) in enumerate(broken):
        rnd = random.Random(seed * 7 + i)
        f = rnd.choice(sorted(f for f in c["files"] if f != "main.xsd"))
        kind = ["missing", "malformed", "invalid", "dir"][i % 4]
        fs = dict(c["files"])
        if kind == "missing": del fs[f]
        elif kind == "malformed": fs[f] = fs[f][:-5]
        elif kind == "invalid": fs[f] = fs[f].replace("</xs:schema>", '<xs:group name="g"/></xs:schema>')
        d = os.path.join(work.TARGET, "w", "xsd", "br%d_%s" % (i, k))
        import shutil; shutil.rmtree(d, ignore_errors=True)
        if kind == "dir": del fs[f]
        for n, s in fs.items(): work.write(os.path.join(d, n), s)
        if kind == "dir": os.makedirs(os.path.join(d, f), exist_ok=True)
        reqs.append({"op": "gen", "path": os.path.join(d, "main.xsd")}); want.append((kind, f, fs))
    for (kind, f, fs), r in zip(want, gen(reqs)):
        out.count("faults"); out.nontrivial += 1
        if failed(r): out.bad("panic: %s" % failed(r), "multi", fault=kind, file=f, files=fs); continue
        if r.get("ok"): out.bad("%s file %s is not reported" % (kind, f), "multi", fault=kind, file=f, files=fs); continue
        if os.path.basename(f) not in r.get("file", "") or os.path.basename(f) not in r.get("msg", ""): out.bad("%s file %s: the error does not name it: %s" % (kind, f, r.get("msg")), "multi", fault=kind, file=f, files=fs)
        if kind in ("missing", "dir") and r.get("kind") != "Open": out.bad("%s file %s: wrong error %s" % (kind, f, r.get("msg")), "multi", fault=kind, file=f, files=fs)
    out.sample({"files": cors["mg1"]["files"]})
    session(out, "C13", "c13", {**{k: c for k, c in list(cors.items())[:10]}, **sel(corpus.enumerated(), "multi_"), **sel(corpus.repo_schemas(), "repo_import", "repo_include")}, seed, th, nmut=0, anyprop=True)
    out.rules.append("random file graphs (2-6 files, up to 3 namespaces, several directories, diamonds and cycles) with references across files, with and without a missing/unreadable/malformed/unsupported file; documents of a sample of them; non-trivial: three or more files, or a fault")

# ------------------------------------------------------------------ C11 references
def c11(out, seed, th):
    gen = work.Gen(); cases = []; rnd = random.Random(seed)
    XSD = "http://www.w3.org/2001/XMLSchema"
    imp = {}
    UA, UB, UC = "urn:a", XSD + "-b", "http://www.w3.org/2001/c"     # look-alikes of the XML Schema namespace
    LIT = {UA: ("int", "i32"), UB: ("boolean", "bool"), UC: ("long", "i64")}
    for u, (l, _) in LIT.items():
        imp["imp_%s.xsd" % u[-1]] = '<zz:schema xmlns:zz="%s" targetNamespace="%s"><zz:simpleType name="Sim%s"><zz:restriction base="zz:%s"/></zz:simpleType><zz:element name="el%s" type="zz:%s"/></zz:schema>' % (XSD, u, u[-1], l, u[-1], l)
    for i in range(600 if th else 200):
        r = random.Random(seed * 31 + i)
        prefs = r.sample(["a", "b", "c", "xs", "xsd", "tns", "x.y", "p-q", "_u", "é", "ns1", "ns2", "A"], 6)
        bind = {}
        for p in prefs: bind[p] = r.choice([UA, UB, UC, XSD])
        tns = r.choice([None, UA, UB, "urn:t"])
        dflt = r.choice([None, XSD, UA, UB, UC])
        sp = next((p for p in prefs if bind[p] == XSD), None)
        if sp is None: sp = "xs0"; bind["xs0"] = XSD
        fields = []; k = 0
        for p, u in bind.items():
            if u == XSD:
                for n in r.sample(["string", "int", "boolean", "decimal", "float"], 2): fields.append(("f%d" % k, p + ":" + n, LITRUST[ir.LITERAL[n]])); k += 1
            else: fields.append(("f%d" % k, p + ":Sim" + u[-1], LIT[u][1])); k += 1
        if dflt == XSD: fields.append(("f%d" % k, "int", "i32"))
        elif dflt: fields.append(("f%d" % k, "Sim" + dflt[-1], LIT[dflt][1]))
        elif tns is None: fields.append(("f%d" % k, "SimLoc", "u64"))
        attrs = r.random() < .4
        it = "".join('<%s:attribute name="%s" type="%s" use="required"/>' % (sp, n, t) if attrs else '<%s:element name="%s" type="%s"/>' % (sp, n, t) for n, t, _ in fields)
        if not attrs: it = "<%s:sequence>%s</%s:sequence>" % (sp, it, sp)
        def doc_(extra): return '<%s:schema %s%s%s>%s<%s:simpleType name="SimLoc"><%s:restriction base="%s:positiveInteger"/></%s:simpleType><%s:element name="root"><%s:complexType>%s</%s:complexType></%s:element>%s</%s:schema>' % (
            sp, " ".join('xmlns:%s="%s"' % b for b in bind.items()), ' targetNamespace="%s"' % tns if tns else "", ' xmlns="%s"' % dflt if dflt else "",
            "".join('<%s:import namespace="%s" schemaLocation="imp_%s.xsd"/>' % (sp, u, u[-1]) for u in LIT), sp, sp, sp, sp, sp, sp, it, sp, sp, extra, sp)
        cases.append(("ok", doc_(""), fields, None))
        # an unbound prefix, everywhere a reference can be
        p = r.choice(["nope", "X", "unbound", "xml2"]); e = sp
        bad = r.choice(['<%s:element name="zz" type="%s:Q"/>' % (e, p), '<%s:complexType name="zz"><%s:sequence><%s:element ref="%s:q"/></%s:sequence></%s:complexType>' % (e, e, e, p, e, e),
                        '<%s:simpleType name="zz"><%s:restriction base="%s:string"/></%s:simpleType>' % (e, e, p, e), '<%s:complexType name="zz"><%s:attribute name="a" type="%s:string"/></%s:complexType>' % (e, e, p, e),
                        '<%s:complexType name="zz"><%s:simpleContent><%s:extension base="%s:string"/></%s:simpleContent></%s:complexType>' % (e, e, e, p, e, e), '<%s:complexType name="zz"><%s:complexContent><%s:extension base="%s:T"/></%s:complexContent></%s:complexType>' % (e, e, e, p, e, e)])
        cases.append(("unbound", doc_(bad), None, p))
    d = os.path.join(work.TARGET, "w", "xsd", "c11x")
    for f, s in imp.items(): work.write(os.path.join(d, f), s)
    for (kind, data, fields, p), r in zip(cases, gen([{"op": "gen", "path": os.path.join(d, "main.xsd"), "data": c[1]} for c in cases])):
        out.count("evaluations"); out.nontrivial += 1; case = dict(schema=data, imports=imp)
        if failed(r): out.bad("panic: %s" % failed(r), "qn", **case); continue
        if kind == "unbound":
            if r.get("ok"): out.bad("reference with unbound prefix %s is accepted" % p, "qn", **case)
            elif r.get("xsd") != "MissingNamespace" or not re.search(r"\b%s\b" % p, r.get("inner", "")): out.bad("the error does not name the unbound prefix %s: %s" % (p, r.get("msg")), "qn", **case)
            continue
        if not r.get("ok"): out.bad("rejected: %s" % r.get("msg"), "qn", **case); continue
        t = typ(r, "root")
        for n, ref, want in fields:
            f = field(t, n) if t else None; g = wrapped(f)[2] if f else None
            for _ in range(4):
                t2 = next((t for t in r["types"] if t["name"] == g and t["kind"] == "tuple"), None)
                if not t2: break
                g = t2["fields"][0]
            if g != want: out.bad("reference %s generates %s, expected %s" % (ref, f, want), "qn", **case); break
    out.sample({"schema": cases[0][1]})
    # element references and types at run time
    session(out, "C11", "c11", {**{"q%d" % i: multi_graph(random.Random(seed * 17 + i)) for i in range(10)}, **sel(corpus.enumerated(), "two_pref", "dflt_", "multi_")}, seed, th, nmut=0, anyprop=True)
    out.rules.append("schemas with random prefix bindings (several prefixes per namespace, default namespaces, no target namespace), references through every prefix; unbound prefixes at every reference position; documents of multi-namespace schemas")

# ------------------------------------------------------------------ C12 strictness
C12_BASES = [
 (HDR % ("", root('<xs:sequence><xs:annotation><xs:documentation>d</xs:documentation></xs:annotation><xs:element name="a" type="xs:string"><xs:annotation><xs:documentation>e</xs:documentation></xs:annotation></xs:element><xs:element name="b"/><xs:element name="c"><xs:complexType><xs:choice><xs:element name="d" type="xs:int"/><xs:sequence minOccurs="0"><xs:element name="f" type="xs:int"/></xs:sequence></xs:choice></xs:complexType></xs:element><xs:choice minOccurs="0" maxOccurs="2"><xs:element ref="g"/><xs:element name="hh" type="T"/></xs:choice><xs:sequence minOccurs="0"><xs:element name="i" type="E"/><xs:element name="j" type="xs:string" fixed="x"/></xs:sequence></xs:sequence>', '<xs:attribute name="at" type="xs:string" use="required"/><xs:attribute name="ap" type="xs:string" use="prohibited"/><xs:attribute name="ao" type="xs:string" use="optional" fixed="f"/><xs:attribute name="aq" use="prohibited"><xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType></xs:attribute><xs:attribute name="au"><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="q"/></xs:restriction></xs:simpleType></xs:attribute>')
  + '<xs:element name="g" type="xs:int"/><xs:complexType name="T"><xs:annotation><xs:documentation>t</xs:documentation></xs:annotation><xs:all minOccurs="0"><xs:element name="k" type="xs:int" minOccurs="0"/><xs:element name="l" type="xs:int" default="4"/></xs:all><xs:attribute name="w" type="xs:int" default="3"/></xs:complexType>'
  + '<xs:simpleType name="E"><xs:annotation><xs:documentation>t</xs:documentation></xs:annotation><xs:restriction base="xs:string"><xs:enumeration value="x"/><xs:enumeration value="y"/></xs:restriction></xs:simpleType><xs:simpleType name="R"><xs:restriction base="xs:decimal"><xs:minInclusive value="1"/><xs:maxInclusive value="5"/><xs:fractionDigits value="2"/><xs:totalDigits value="9"/></xs:restriction></xs:simpleType><xs:simpleType name="L"><xs:restriction base="xs:string"><xs:length value="1"/><xs:minLength value="1"/><xs:maxLength value="1"/><xs:pattern value="z"/></xs:restriction></xs:simpleType>'
  + '<xs:complexType name="S"><xs:simpleContent><xs:extension base="xs:int"><xs:attribute name="sa" type="E"/></xs:extension></xs:simpleContent></xs:complexType><xs:complexType name="X"><xs:complexContent><xs:extension base="T"><xs:sequence><xs:element name="xx" type="xs:int"/></xs:sequence><xs:attribute name="xa" type="E"/></xs:extension></xs:complexContent></xs:complexType><xs:complexType name="Y"><xs:complexContent><xs:extension base="T"><xs:attribute name="ya" type="xs:int"/></xs:extension></xs:complexContent></xs:complexType><xs:element name="top"><xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType></xs:element>')),
]
# attributes the library interprets (or deliberately accepts) per element kind; 'top' = directly under schema
C12_OK = {"element": {"name", "ref", "type", "minOccurs", "maxOccurs", "fixed", "default", "form"}, "attribute": {"name", "type", "use", "default", "fixed"}, "sequence": {"minOccurs", "maxOccurs"}, "all": {"minOccurs", "maxOccurs"}, "choice": {"minOccurs", "maxOccurs"},
          "complexType": {"name", "mixed"}, "simpleType": {"name"}, "simpleContent": set(), "complexContent": set()}
C12_ATTRS = ["bogus", "id", "nillable", "abstract", "substitutionGroup", "final", "block", "mixed", "ref", "ID", "minoccurs", "processContents", "value", "base", "use", "name", "fixed", "form", "minOccurs", "maxOccurs", "type", "default"]
# child elements that are supported somewhere under each parent
C12_KIDS = {"sequence": {"element", "choice", "sequence", "annotation"}, "all": {"element", "choice", "sequence", "annotation"}, "choice": {"element", "sequence", "annotation"},
            "complexType": {"annotation", "simpleContent", "complexContent", "sequence", "all", "choice", "attribute"}, "simpleType": {"annotation", "restriction"}, "simpleContent": {"extension"}, "complexContent": {"extension"},
            "attribute": {"annotation", "simpleType"}, "extension": {"attribute", "sequence"}, "restriction": {"enumeration", "length", "minLength", "maxLength", "pattern", "minInclusive", "maxInclusive", "fractionDigits", "totalDigits"}}
C12_CHILDREN = ["any", "group", "attributeGroup", "anyAttribute", "key", "unique", "keyref", "assert", "openContent", "list", "union", "restriction", "extension", "attribute", "element", "sequence", "all", "choice", "simpleType", "complexType", "simpleContent", "whiteSpace", "minExclusive", "maxExclusive", "enumeration", "alternative", "notation", "bogusKid", "field", "selector", "annotation"]
def c12(out, seed, th):
    from xml.dom import minidom
    gen = work.Gen(); rnd = random.Random(seed); XSD = ir.XSD
    cases = []
    bases = [b for b in C12_BASES] + [random.Random(seed + i) and corpus.rand_schema(random.Random(seed * 37 + i))["files"]["main.xsd"] for i in range(6 if th else 2)]
    def mutate(src, path, f):
        d = minidom.parseString(src.encode()); n = d.documentElement
        for i in path: n = [c for c in n.childNodes if c.nodeType == 1][i]
        f(d, n); return d.documentElement.toxml()
    def nodes(src):
        d = minidom.parseString(src.encode())
        def go(n, path):
            yield path, n
            for i, c in enumerate([c for c in n.childNodes if c.nodeType == 1]): yield from go(c, path + [i])
        return list(go(d.documentElement, []))
    for bi, src in enumerate(bases):
        cases.append(("base", src, None, bi, ""))
        for path, n in nodes(src):
            ln = n.localName; top = len(path) == 1
            if ln in C12_OK:
                have = {n.attributes.item(i).name for i in range(n.attributes.length)}
                for a in C12_ATTRS:
                    ok = set(C12_OK[ln])
                    if top: ok -= {"minOccurs", "maxOccurs", "ref", "default", "form"}
                    if a in ok or a in have: continue
                    if bi and rnd.random() > .05: continue
                    cases.append(("attr", mutate(src, path, lambda d, m: m.setAttribute(a, "1")), a, bi, ln))
                # attributes that are interpreted only in other circumstances
                if ln == "element" and not top and "ref" in have:
                    for a in ("default", "form", "fixed", "type", "name"): cases.append(("attr", mutate(src, path, lambda d, m: m.setAttribute(a, "xs:string")), a, bi, ln))
            if ln in C12_KIDS:
                for k in C12_CHILDREN:
                    if k in C12_KIDS[ln]: continue
                    if bi and rnd.random() > .05: continue
                    for first in ((True, False) if not bi else (rnd.random() < .5,)):
                        def ins(d, m):
                            e = d.createElementNS(XSD, "xs:" + k)
                            e.setAttribute("name", "zz"); e.setAttribute("value", "1"); e.setAttribute("base", "xs:string")
                            m.insertBefore(e, m.firstChild) if first else m.appendChild(e)
                        cases.append(("kid", mutate(src, path, ins), k, bi, ln))
            if ln in ("sequence", "choice") and not (n.parentNode.localName == "complexType"):
                pass
            # foreign attributes and elements never matter
            if n.namespaceURI == XSD and ln not in ("documentation",) and (not bi or rnd.random() < .3):
                for a in ("name", "type", "minOccurs", "maxOccurs", "use", "base", "fixed", "value", "mixed", "bogus", "default", "ref"):
                    if bi and rnd.random() > .2: continue
                    if a in ("name", "type", "minOccurs", "maxOccurs", "use", "fixed", "ref", "bogus") or rnd.random() < .3:
                        def fa(d, m): m.setAttribute("xmlns:fo", "urn:foreign"); m.setAttributeNS("urn:foreign", "fo:" + a, rnd.choice(["1", "true", "xs:int", "0", "prohibited", "unbounded"]))
                        cases.append(("foreign", mutate(src, path, fa), a, bi, ln))
                for k in ("element", "any", "thing", "sequence", "attribute", "enumeration"):
                    if bi and rnd.random() > .2: continue
                    def fe(d, m):
                        e = d.createElementNS("urn:foreign", "fo:" + k); e.setAttribute("xmlns:fo", "urn:foreign"); e.setAttribute("name", "zz"); e.setAttribute("value", "9")
                        m.insertBefore(e, m.firstChild)
                    cases.append(("foreign", mutate(src, path, fe), "fo:" + k, bi, ln))
    # top level kinds, root elements
    for k in ("group", "attributeGroup", "notation", "attribute", "redefine", "override", "annotation", "sequence", "all", "bogusTop", "defaultOpenContent", "any", "restriction"):
        cases.append(("top", HDR % ("", '<xs:%s name="zz"/>' % k), k, 0, "schema"))
        cases.append(("top", HDR % ("", '<xs:element name="a" type="xs:int"/><xs:%s name="zz" type="xs:int"/>' % k), k, 0, "schema"))
    for r_ in ('<xs:element %s name="a" type="xs:int"/>' % XS, '<schema/>', '<schema xmlns="urn:x"/>', '<xs:schemas %s/>' % XS, '<xs:Schema %s/>' % XS, '<x:schema xmlns:x="http://www.w3.org/2001/XMLSchema/"/>', '<xs:complexType %s name="a"/>' % XS):
        cases.append(("root", r_, re.search(r"<(?:\w+:)?(\w+)", r_).group(1), 0, ""))
    cases.append(("attrval", HDR % ("", '<xs:complexType name="T" mixed="true"><xs:sequence/></xs:complexType>'), "mixed", 0, "complexType"))
    cases.append(("attrval", HDR % ("", root('<xs:sequence><xs:element name="c"><xs:complexType mixed="true"><xs:sequence><xs:element name="d" type="xs:int"/></xs:sequence></xs:complexType></xs:element></xs:sequence>')), "mixed", 0, "complexType"))
    ref = {}
    def norm(r): return (sorted(json.dumps(dict(t, variants=sorted(t["variants"])) if t["kind"] == "enum" else t, sort_keys=True) for t in r["types"]), sorted(r["code"].split()))
    for (kind, src, what, bi, ln), r in zip(cases, gen_data(gen, [c[1] for c in cases])):
        out.count("evaluations"); case = dict(kind=kind, inserted=what, at=ln, schema=src)
        if failed(r): out.bad("panic (%s %s in %s): %s" % (kind, what, ln, failed(r)), "strict", **case); continue
        if kind == "base":
            if not r.get("ok"): out.bad("base schema is rejected: %s" % r.get("msg"), "strict", **case)
            else: ref[bi] = norm(r)
        elif kind == "foreign":
            if bi not in ref: continue
            out.nontrivial += 1
            if not r.get("ok"): out.bad("foreign %s in %s makes parsing fail: %s" % (what, ln, r.get("msg")), "strict", **case)
            elif norm(r) != ref[bi]: out.bad("foreign %s in %s changes the generated code" % (what, ln), "strict", **case)
        else:
            out.nontrivial += 1
            if r.get("ok"): out.bad("unsupported %s %s in %s is accepted" % ({"attr": "attribute", "kid": "element"}.get(kind, kind), what, ln), "strict", **case)
            elif r.get("kind") != "Xsd" or not re.search(r"\b%s\b" % re.escape(what), r.get("msg", "")): out.bad("unsupported %s %s in %s: the error does not name it: %s" % (kind, what, ln, r.get("msg")), "strict", **case)
        if out.stats["evaluations"] % 900 == 7: out.sample(dict(case, result=r.get("msg") or "accepted"))
    out.rules.append("every node of base and random schemas x unsupported attributes and child elements inserted, foreign attributes/elements inserted, unsupported roots and top-level components")

# ------------------------------------------------------------------ C14 dependency closure
def c14(out, seed, th):
    gen = work.Gen()
    if not work.GEN_FULL: raise work.BuildError("generate_element_and_dependencies cannot be driven: the API changed")
    cor = {**sel(corpus.enumerated(), "seq_mix", "choice_top_", "grp_", "rec_", "ext", "multi", "attr_", "simple_color", "nest", "rep_"), **{"mg%d" % i: multi_graph(random.Random(seed * 53 + i)) for i in range(60 if th else 20)}, **corpus.random_schemas(seed, 60 if th else 15),
           **{"dg%d" % i: dep_graph(random.Random(seed * 59 + i)) for i in range(100 if th else 30)}}
    paths = corpus.put(cor)
    alls = dict(zip(cor, gen([{"op": "gen", "path": paths[k]} for k in cor])))
    reqs = []; meta = []
    for k, c in cor.items():
        r = alls[k]
        if not r.get("ok"): continue
        rnd = random.Random("%s/%s" % (seed, k))
        graph, globs = refgraph(paths[k])
        gl = sorted(globs, key=str)
        for t in range(6):
            calls = [rnd.choice(gl) for _ in range(1 if t < 2 else rnd.randint(2, 5))]
            marked = [] if t % 2 == 0 else [rnd.choice(gl) for _ in range(rnd.randint(1, 2))]
            reqs.append({"op": "deps", "path": paths[k], "calls": [list(x) for x in calls], "marked": [list(x) for x in marked]}); meta.append((k, calls, marked, graph, globs))
    for q, (k, calls, marked, graph, globs), r in zip(reqs, meta, gen(reqs)):
        out.count("histories"); case = dict(request=q, files=cor[k]["files"])
        if failed(r) or not r.get("ok"): out.bad("fails: %s" % (failed(r) or r), "deps", **case); continue
        all_types = {t["name"]: t for t in alls[k]["types"]}
        gname = {pascal(g[1]): g for g in globs}
        done = set(marked); emitted_all = set()
        why = None; vis_types = {n for n in all_types if gname.get(n.lower()) in set(marked)}
        for c, res in zip(calls, r["calls"]):
            if "emitted" not in res: why = "call on %s fails: %s" % (c, res); break
            em = res["emitted"]
            if len(set(em)) != len(em): why = "a type is emitted twice by the call on %s: %s" % (c, sorted(em)); break
            if set(em) & emitted_all: why = "types %s are emitted again by a later call" % sorted(set(em) & emitted_all); break
            emitted_all |= set(em)
            want = closure(graph, c); wantnew = want - done
            got = {gname[n.lower()] for n in em if n.lower() in gname}
            if got != wantnew: why = "call on %s (already %s) emits %s, expected %s" % (c, sorted(done, key=str), sorted(got, key=str), sorted(wantnew, key=str)); break
            done |= want
            vis_types |= set(em)
            mk = {(a, b) for a, b in res["marked"]}
            if {m for m in mk if m in globs} != {d for d in done}: why = "after the call on %s the marked set is %s, expected %s" % (c, sorted(mk & globs, key=str), sorted(done, key=str)); break
            # types of anonymous parts: referenced by an emitted type, and every referenced one emitted
            refd = set()
            for n in vis_types:
                for x in type_refs(all_types[n]): refd.add(x)
            lost = {x for x in refd if x in all_types and x not in vis_types and x.lower() not in gname}
            # (anonymous types of a type the caller marked were never asked for)
            lost = {x for x in lost if any(x in type_refs(all_types[n]) for n in em)}
            if lost: why = "types %s are referenced by emitted ones but not emitted" % sorted(lost); break
            # (a simple type that only restricts a built-in is referenced in the schema; the field has the built-in's type)
            stray = {n for n in em if n.lower() not in gname and n not in refd and not (all_types[n]["kind"] == "tuple" and not any(x in all_types for x in type_refs(all_types[n])))}
            if stray: why = "types %s are emitted but not referenced" % sorted(stray); break
        if why: out.bad(why, "deps", **case)
        if len(calls) > 1: out.nontrivial += 1
    out.sample(reqs[0]); out.sample(reqs[-1])
    out.rules.append("call histories (1-5 calls, with types marked beforehand) on corpus, random and graph-shaped schemas (cycles, diamonds, chains); expected closure from the references in the schema text; non-trivial: two or more calls")
def pascal(n): return re.sub(r"[^0-9a-zA-Z]", "", n).lower()
def dep_graph(rnd):
    n = rnd.randint(3, 9); W = ["ant", "bee", "cow", "doe", "elk", "fox", "gnu", "hen", "ibx"]
    body = ""
    for i in range(n):
        k = rnd.random(); tgt = [rnd.randrange(n) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]; tgt = sorted(set(tgt))
        els = "".join('<xs:element name="%s%s" type="%%p%sT"%s/>' % (W[j], "xyz"[q % 3], W[j].capitalize(), rnd.choice(['', ' minOccurs="0" maxOccurs="unbounded"'])) for q, j in enumerate(tgt))
        if k < .2 and els: body += '<xs:complexType name="%sT"><xs:choice>%s<xs:element name="none" type="xs:string"/></xs:choice></xs:complexType>' % (W[i].capitalize(), els)
        elif k < .35: body += '<xs:complexType name="%sT"><xs:sequence><xs:element name="wrap"><xs:complexType><xs:sequence>%s</xs:sequence></xs:complexType></xs:element></xs:sequence></xs:complexType>' % (W[i].capitalize(), els)
        elif k < .5 and tgt and i not in tgt: body += '<xs:complexType name="%sT"><xs:complexContent><xs:extension base="%%p%sT"><xs:sequence><xs:element name="own" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>' % (W[i].capitalize(), W[tgt[0]].capitalize())
        else: body += '<xs:complexType name="%sT"><xs:sequence>%s</xs:sequence><xs:attribute name="k" type="%%pKindE"/></xs:complexType>' % (W[i].capitalize(), els)
    body += '<xs:simpleType name="KindE"><xs:restriction base="xs:string"><xs:enumeration value="m"/></xs:restriction></xs:simpleType>'
    body += "".join('<xs:element name="e%s" type="%%p%sT"/>' % (W[i], W[i].capitalize()) for i in range(n))
    conf = rnd.choice("nuq"); out = {}
    add(out, "x", conf, body, ["deps"], False)
    return out["x"]
def refgraph(path):
    """references between global components, from the schema text alone"""
    from xml.dom import minidom
    graph = {}; seen = set()
    def load(p):
        rp = os.path.realpath(p)
        if rp in seen: return
        seen.add(rp); d = minidom.parse(p).documentElement
        ns = {}
        for i in range(d.attributes.length):
            a = d.attributes.item(i)
            if a.name == "xmlns": ns[None] = a.value
            elif a.prefix == "xmlns": ns[a.localName] = a.value
        tns = d.getAttribute("targetNamespace") or None
        def q(s):
            if ":" in s: p_, l = s.split(":"); return (ns[p_], l)
            return (ns.get(None), s)
        for c in ir.kids(d):
            if c.localName in ("include", "import"): load(os.path.join(os.path.dirname(p), c.getAttribute("schemaLocation"))); continue
            refs = set()
            def walk(n):
                if n.namespaceURI == ir.XSD:
                    if n.localName == "attribute" and n.getAttribute("use") == "prohibited" : pass
                    for a in ("type", "ref", "base"):
                        if n.hasAttribute(a) and q(n.getAttribute(a))[0] != ir.XSD: refs.add(q(n.getAttribute(a)))
                for k in n.childNodes:
                    if k.nodeType == 1: walk(k)
            walk(c)
            graph[(tns, c.getAttribute("name"))] = refs
    load(path)
    return graph, set(graph)
def closure(graph, n):
    seen = set(); todo = [n]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); todo += list(graph.get(x, ()))
    return seen
def type_refs(t):
    def names(x): return [x] if isinstance(x, str) else names(x[1])
    if t["kind"] == "enum": return {y for _, fs in t["variants"] for f in fs for y in names(f)}
    return {y for f in t["fields"] for y in names(f[1] if t["kind"] == "struct" else f)}

# ------------------------------------------------------------------ C15 names
RESERVED = "as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await abstract become box do final macro override priv typeof unsized virtual yield try union auto default raw gen".split()
def name_corpus(seed, th):
    rnd = random.Random(seed); out = {}
    pools = [RESERVED, ["a-b", "a.b", "a_b2", "A-b-C", "x-1", "x.2", "A1b2", "HTTPServer", "iPhone", "a--b", "a..b", "trail-", "trail_.", "_x", "__y", "ns.type", "X", "é", "Éa", "straße", "ñandú", "Ω", "日本", "日本語-x", "Ünï.cödé", "ÀB", "дом", "aé", "İx", "_1", "_2nd", "ı"]]
    def uniq(l):
        seen = set(); r = []
        for n in l:
            k = re.sub(r"[^\w]|_", "", n).lower()
            if k and k not in seen and k not in ("root", "rootdata", "box", "string", "vec", "option", "result", "some", "none", "ok", "err", "default"): seen.add(k); r.append(n)
        return r
    def rname():
        s = rnd.choice("abcxyzéßΩ漢дñ") + "".join(rnd.choice("abcDEF-._019éß漢Ω") for _ in range(rnd.randint(0, 6)))
        return s
    lists = [uniq(pools[0]), uniq(pools[1])] + [uniq([rname() for _ in range(14)]) for _ in range(10 if th else 3)]
    for i, l in enumerate(lists):
        conf = "nq"[i % 2]; L = lambda f: "".join(f(n) for n in l)
        add(out, "nm_el%d" % i, conf, root("<xs:sequence>%s</xs:sequence>" % L(lambda n: '<xs:element name="%s" type="xs:string"/>' % n)), ["names"], False)
        add(out, "nm_opt%d" % i, conf, root("<xs:sequence>%s</xs:sequence>" % L(lambda n: '<xs:element name="%s" type="xs:int" minOccurs="0" maxOccurs="unbounded"/>' % n)), ["names"], False)
        add(out, "nm_at%d" % i, conf, root("", L(lambda n: '<xs:attribute name="%s" type="xs:string"%s/>' % (n, rnd.choice(["", ' use="required"'])))), ["names", "attr"], False)
        add(out, "nm_ch%d" % i, conf, root("<xs:choice>%s</xs:choice>" % L(lambda n: '<xs:element name="%s" type="xs:string"/>' % n)), ["names"], False)
        add(out, "nm_al%d" % i, conf, root("<xs:all>%s</xs:all>" % L(lambda n: '<xs:element name="%s" type="xs:string" minOccurs="%d"/>' % (n, rnd.randint(0, 1)))), ["names"], False)
        add(out, "nm_ge%d" % i, conf, L(lambda n: '<xs:element name="%s" type="xs:int"/>' % n) + root("<xs:sequence>%s</xs:sequence>" % L(lambda n: '<xs:element ref="%%p%s" minOccurs="0"/>' % n)), ["names"], False)
        add(out, "nm_ty%d" % i, conf, L(lambda n: '<xs:complexType name="%s"><xs:attribute name="q" type="xs:int"/></xs:complexType>' % n) + root("<xs:sequence>%s</xs:sequence>" % "".join('<xs:element name="f%s" type="%%p%s"/>' % (j, n) for j, n in enumerate(l))), ["names"], False)
        add(out, "nm_in%d" % i, conf, root("<xs:sequence>%s</xs:sequence>" % L(lambda n: '<xs:element name="%s" minOccurs="0"><xs:complexType><xs:sequence><xs:element name="v" type="xs:int"/></xs:sequence></xs:complexType></xs:element>' % n)), ["names"], False)
        pairs = list(zip(l[::2], l[1::2]))
        add(out, "nm_gr%d" % i, conf, "".join('<xs:element name="root%s"><xs:complexType><xs:sequence><xs:choice minOccurs="0"><xs:element name="%s" type="xs:string"/><xs:element name="%s" type="xs:int"/></xs:choice><xs:sequence minOccurs="0"><xs:element name="%s2" type="xs:int"/><xs:element name="%s2" type="xs:int"/></xs:sequence></xs:sequence></xs:complexType></xs:element>' % ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[j], a, b, a, b) for j, (a, b) in enumerate(pairs)), ["names"], False)
    return out
def c15(out, seed, th):
    gen = work.Gen(); rnd = random.Random(seed)
    # no panic, valid Rust: many names, generation only
    datas = []; nl = []
    st = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_éßÉ漢字ΩдñçøÅŁ"; ct = st + "0123456789-.·"
    for i in range(1200 if th else 300):
        names = [rnd.choice(st) + "".join(rnd.choice(ct) for _ in range(rnd.choice([0, 1, 2, 3, 5, 9]))) for _ in range(4)]
        if i < len(RESERVED): names[rnd.randrange(4)] = RESERVED[i]
        a, b, c, d = names
        body = root('<xs:sequence><xs:element name="%s" type="xs:int"/><xs:choice><xs:element name="%s" type="xs:int"/><xs:element name="%s" type="xs:int"/></xs:choice><xs:sequence minOccurs="0"><xs:element name="%s1" type="xs:int"/><xs:element name="%s1" type="xs:int"/></xs:sequence><xs:element name="%s3"><xs:complexType><xs:choice><xs:sequence><xs:element name="%s" type="xs:int"/><xs:element name="%s" type="xs:int"/></xs:sequence><xs:element name="%s" type="xs:int"/></xs:choice></xs:complexType></xs:element></xs:sequence>' % (a, b, c, a, b, d, a, b, c), '<xs:attribute name="%s9" type="xs:int"/>' % c)
        datas.append(HDR % ("", body)); nl.append(names)
    for n, data, r in zip(nl, datas, gen_data(gen, datas)):
        out.count("evaluations"); out.nontrivial += 1
        if not r.get("ok"): out.bad("names %r: %s" % (n, failed(r) or r.get("msg")), "names", names=n, schema=data)
        elif "synerr" in r: out.bad("names %r: the generated code is not valid Rust: %s" % (n, r["synerr"]), "names", names=n, schema=data)
    out.sample({"names": nl[0]})
    session(out, "C15", "c15", {**name_corpus(seed, th), **sel(corpus.enumerated(), "names_", "grp_names"), **tvsel("C15")}, seed, th, nvals=4, nmut=2, anyprop=True)
    out.rules.append("random and reserved names in every naming position: generation must not panic and give valid Rust; a sample of them compiled and run against documents with exactly those names")

# ------------------------------------------------------------------ C16, C17
def all_corpus(seed, th):
    out = {}; rnd = random.Random(seed)
    for i in range(40 if th else 10):
        conf = "nuq"[i % 3]; ks = rnd.sample([k for k in corpus.ALL], rnd.randint(1, 8)); rnd.shuffle(corpus.NAMES) if False else None
        its = "".join(part(k, corpus.NAMES[j], (rnd.randint(0, 1), 1), "%p") for j, k in enumerate(ks))
        add(out, "all_r%d" % i, conf, root("<xs:all%s>%s</xs:all>" % (rnd.choice(["", "", ' minOccurs="0"']), its), rnd.choice(["", '<xs:attribute name="at" type="xs:int"/>'])), ["all"])
    return out
def c16(out, seed, th):
    s = session(out, "C16", "c16", {**sel(corpus.enumerated(), "all_"), **all_corpus(seed, th), **sel(corpus.repo_schemas(), "repo_all"), **tvsel("C16")}, seed, th, nvals=12, nmut=12)
    out.nontrivial += s.stats["perms"]
    out.rules.append("all groups of every member kind x required/optional, random values, documents with the members in random orders and single-fault mutants; non-trivial: a permuted document")
def c17(out, seed, th):
    gen = work.Gen(); cases = []
    TY = {"xs:string": "String", "xs:int": "i32", "xs:boolean": "bool", "Enu": "Enu", "Sim": "i64", "inl": None, "fix": "()"}
    OWN = {"empty": root("", "%s"), "sequence": root('<xs:sequence><xs:element name="k" type="xs:int"/></xs:sequence>', "%s"), "choice": root('<xs:choice><xs:element name="k" type="xs:int"/><xs:element name="l" type="xs:int"/></xs:choice>', "%s"), "all": root('<xs:all><xs:element name="k" type="xs:int"/></xs:all>', "%s"),
           "simple": root('<xs:simpleContent><xs:extension base="xs:int">%s</xs:extension></xs:simpleContent>'), "ext": '<xs:complexType name="BB"/>' + root('<xs:complexContent><xs:extension base="BB">%s</xs:extension></xs:complexContent>'),
           "extseq": '<xs:complexType name="BB"/>' + root('<xs:complexContent><xs:extension base="BB"><xs:sequence><xs:element name="k" type="xs:int"/></xs:sequence>%s</xs:extension></xs:complexContent>')}
    G = '<xs:simpleType name="Enu"><xs:restriction base="xs:string"><xs:enumeration value="a"/></xs:restriction></xs:simpleType><xs:simpleType name="Sim"><xs:restriction base="xs:long"/></xs:simpleType>'
    for own, body in OWN.items():
        for ty in TY:
            for use in (None, "required", "optional", "prohibited", "Required", "always", "", "requiredx", "OPTIONAL"):
                for dflt in (False, True):
                    if dflt and ty == "fix": continue
                    a = '<xs:attribute name="at"' + (' type="xs:string" fixed="f"' if ty == "fix" else "" if ty == "inl" else ' type="%s"' % ty) + (' use="%s"' % use if use is not None else "") + (' default="a"' if dflt else "")
                    a += '><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="a"/></xs:restriction></xs:simpleType></xs:attribute>' if ty == "inl" else "/>"
                    two = '<xs:attribute name="zz" type="xs:int" use="required"/>'
                    cases.append((own, ty, use, dflt, HDR % ("", body % (a + two) + G)))
    for (own, ty, use, dflt, data), r in zip(cases, gen_data(gen, [c[4] for c in cases])):
        out.count("evaluations"); out.nontrivial += 1; case = dict(owner=own, type=ty, use=use, default=dflt, schema=data)
        if failed(r): out.bad("panic: %s" % failed(r), "attr", **case); continue
        if use not in (None, "required", "optional", "prohibited") or (dflt and use == "required"):
            if r.get("ok"): out.bad("use=%r%s on %s is accepted" % (use, " with a default" if dflt else "", own), "attr", **case)
            continue
        if not r.get("ok"): out.bad("use=%r type=%s on %s is rejected: %s" % (use, ty, own, r.get("msg")), "attr", **case); continue
        t = typ(r, "root"); f = field(t, "at") if t else None
        if not t or field(t, "zz") != "i32": out.bad("a neighbouring attribute is lost", "attr", **case); continue
        if use == "prohibited":
            if f is not None: out.bad("prohibited attribute on %s generates %s" % (own, f), "attr", **case)
            continue
        if f is None: out.bad("no field for use=%r type=%s on %s" % (use, ty, own), "attr", **case); continue
        o, l, g = wrapped(f)
        if l or o is not (use != "required") or (TY[ty] and g != TY[ty]): out.bad("use=%r type=%s on %s generates %s" % (use, ty, own, f), "attr", **case)
    out.sample({"schema": cases[3][4]})
    session(out, "C17", "c17", {**sel(corpus.enumerated(), "attr_", "simple_", "ext_", "extattr", "rep_1", "all_req"), **sel(corpus.repo_schemas(), "repo_att"), **tvsel("C17")}, seed, th, nvals=10, nmut=16)
    out.rules.append("attribute declarations (type x use x default x owner): generated field; documents with present, absent, foreign-namespace and invalid attributes")

CHECKS = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 18)}
