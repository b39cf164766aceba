"""The deductive part: Verus on code extracted from /repo on every run."""
import copy, json, os, re, importlib, subprocess, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import vx, work
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "units", "baseline.json")

class UnitResult:
    def __init__(s, name): s.name = name; s.status = "OUT-OF-REACH"; s.reason = ""; s.failed = []; s.obligations = 0; s.discharged = 0; s.functions = []; s.oor = {}; s.trusted = []; s.ms = 0; s.output = ""; s.canary = None; s.what = ""; s.listed = []
    def summary(s): return "%d functions proved of %d under contract, %d obligations discharged of %d, solver %d ms, vacuity guard %s" % (len(s.functions), len(s.listed), s.discharged, s.obligations, s.ms, s.canary)
    def report(s): return dict(unit=s.name, what=s.what, status=s.status, reason=s.reason, failed=s.failed, obligations=s.obligations, discharged=s.discharged, proved=s.functions, out_of_reach=s.oor, vacuity_guard=s.canary, solver_ms=s.ms, verifier_output=s.output[:4000])
class Result:
    def __init__(s): s.units = []; s.cmd = "verus target/verus/<unit>.rs --rlimit N (text assembled from /repo by tools/vx on every run)"; s.level = "exploration"; s.bounded_only = []; s.programs = 0; s.assumptions = []
def version():
    try: return re.search(r"Version: (\S+)", subprocess.run([vx.VERUS, "--version"], text=True, capture_output=True).stdout).group(1)
    except Exception: return ""

def baseline():
    try: return json.load(open(BASE))
    except OSError: return {}

def fn_of(u, e):
    for l in e["lines"]:
        for p, f in u.fns.items():
            if f.lines and f.lines[0] <= l <= f.lines[1]: return p
    return None

def trusted_items(text):
    """every assumption in the assembled text, found by scanning it"""
    r = []
    for m in re.finditer(r"(?:external_body[^\n]*?\b(?:fn|struct)\s+(\w+))|(?:axiom fn (\w+))|(?:assume_specification[^\n]*)", text): r.append(m.group(1) or m.group(2) or m.group(0)[:60])
    return sorted(set(r))

def verify(u, threads=4, on=None):
    """{function: (status, messages)} and the facts about the run; on: the clauses of the specification that are switched on (None: all)"""
    tag = "" if on is None else "_" + ("-".join(on) or "base")
    if on is not None: u = copy.copy(u); u.on = list(on)
    r = UnitResult(u.name); ext = set(); st = {}
    base = baseline().get(u.name, {})
    try:
        for attempt in range(6):
            text = u.assemble(ext)
            if text is None: r.reason = "source does not parse: %s" % u.errors; return r, st
            o = vx.run_verus(text, u.name + tag, u.rlimit, threads)
            if o["timeout"]: r.reason = "verifier timed out"; return r, st
            hard = [e for e in o["errors"] if not vx.is_proof_err(e) and "rlimit" not in e["msg"] and "aborting due to" not in e["msg"] and "Resource limit" not in e["msg"]]
            if not hard: break
            new = {fn_of(u, e) for e in hard} - {None} - ext
            for e in hard:
                f = fn_of(u, e)
                if f: st[f] = ("OUT-OF-REACH", ["outside the verifier's dialect: " + e["msg"][:160]])
            if not new: r.reason = "outside the verifier's dialect: " + "; ".join(e["msg"][:160] for e in hard[:3]); r.output = o["raw"]; return r, {f: ("OUT-OF-REACH", [r.reason]) for f in u.fns}
            ext |= new
        else:
            r.reason = "outside the verifier's dialect"; return r, {f: ("OUT-OF-REACH", [r.reason]) for f in u.fns}
    except work.BuildError as e:
        r.reason = str(e)[:300]; return r, st
    r.ms = o["smt_ms"]; r.obligations = o["verified"] + o["nerr"]; r.discharged = o["verified"]; r.output = o["raw"] if o["errors"] else ""
    lemma_bad = []
    for e in o["errors"]:
        if "aborting due to" in e["msg"]: continue
        f = fn_of(u, e)
        if f is None: lemma_bad.append(e["msg"] + " " + str(e["lines"][:1])); continue
        if "Resource limit" in e["msg"] or "rlimit" in e["msg"]: st[f] = ("OUT-OF-REACH", ["solver gave no answer within its resource limit"])
        elif st.get(f, ("",))[0] != "OUT-OF-REACH": st[f] = ("FAILED", st.get(f, ("", []))[1] + [explain(text, e)])
    for p, f in u.fns.items():
        if p in st: continue
        if f.drop: st[p] = ("OUT-OF-REACH", ["body not read by the verifier"]) if p in ext else ("TRUSTED", [])
        elif lemma_bad: st[p] = ("OUT-OF-REACH", ["a lemma does not hold: " + lemma_bad[0]])
        else: st[p] = ("PROVED", [])
    # a failed proof counts only where the proof still fits the function: same loops, no callee without a contract
    for p, (s, m) in list(st.items()):
        if s != "FAILED": continue
        b = base.get("fns", {}).get(p)
        known = (set(base.get("calls", [])) | set(re.findall(r"\bfn (\w+)", text))) - {x for q, f in u.fns.items() if not f.contract and q not in base.get("fns", {}) for x in (q.split("::")[-1], q.replace("::", "_"), "_".join(q.split("::")[-2:]))}
        it = u.fns[p].item
        if not u.fns[p].contract: st[p] = ("OUT-OF-REACH", ["new function without a contract"] + m)
        elif b is None and not u.allow_new: st[p] = ("OUT-OF-REACH", ["new function"] + m)
        elif b is not None and b["loops"] != it["loops"]: st[p] = ("OUT-OF-REACH", ["the loops changed, their invariants no longer apply"] + m)
        elif {c for c in it["calls"] if c not in known and c.split("::")[-1] not in known}: st[p] = ("OUT-OF-REACH", ["calls without a contract: %s" % sorted(c for c in it["calls"] if c not in known and c.split("::")[-1] not in known)] + m)
    for p in u.items:
        if p not in u.fns and p not in st: st[p] = ("OUT-OF-REACH", ["the function is no longer there"])
    # an obligation fails only if the solver finds no proof with another seed and more resources either
    bad = [p for p, (s, m) in st.items() if s == "FAILED"]
    if bad:
        o2 = vx.run_verus(text, u.name + tag + "_again", u.rlimit * 4, threads, extra=("--smt-option", "smt.random_seed=17"))
        still = {fn_of(u, e) for e in o2["errors"]} if not o2["timeout"] else set(bad)
        for p in bad:
            if p not in still: st[p] = ("PROVED", [])
    r.trusted = trusted_items(text)
    if on is not None: return r, st
    # vacuity guard: with assert(false) at every entry, every function must fail
    ct = u.assemble(ext, canary=True)
    co = vx.run_verus(ct, u.name + "_canary", u.rlimit, threads)
    hit = {fn_of(u, e) for e in co["errors"]}
    vac = [p for p, f in u.fns.items() if f.contract and not f.drop and p not in u.canary_skip and p not in hit]
    r.canary = "ok" if not vac and not co["timeout"] else "not reached in: %s" % ", ".join(vac[:5])
    for p in vac:
        if st.get(p, ("",))[0] == "PROVED": st[p] = ("OUT-OF-REACH", ["its preconditions could not be shown satisfiable"])
    return r, st

def explain(text, e):
    ls = text.split("\n"); out = e["msg"]
    for l in e["lines"][:2]:
        if 0 < l <= len(ls): out += " | " + re.sub(r"\s+", " ", ls[l - 1]).strip()[:240]
    return out

_memo = {}
def unit_result(name, threads=4, on=None):
    k = (name, None if on is None else tuple(on))
    if k not in _memo:
        u = importlib.import_module("vf.units." + name).UNIT
        _memo[k] = (u,) + verify(u, threads, on)
    return _memo[k]

# property -> [(unit, functions or None for all under contract, what it shows)]
NODE = "the view of a schema node: attributes, children, what was read and what was not"
REFS = ["Context::get_type_name", "literal_from_str", "Context::discover_type", "Name::new"]
PARSERS = ["annotation::parse", "parse_annotation", "attribute::parse", "choice::parse", "complex_content::parse", "complex_type::parse", "element::parse_child", "element::parse_root", "root::parse", "sequence::parse", "simple_content::parse", "simple_type::parse"]
NAMES = ["derive_virtual_name", "deduplicate_virtual_names", "Context::add_root", "Context::has_root", "Context::get_node_name", "Context::target_namespace"]
DATA = ["Root::with_docs", "ElementDefinition::with_docs", "Node::try_attribute"]
OCC = ["element::parse_min_occurs", "element::parse_max_occurs", "MaxOccurs::is_vec", "Leaf::is_vec", "Leaf::is_optional", "<MinOccurs as Default>::default", "<MaxOccurs as Default>::default"]
PLAN = {"C02": [("runtime", None, "contracts of the writing functions of the runtime, which the generated code is verified against", True)],
 "C03": [("decode", ["Node::text", "Node::attribute", "Document::child"], "text and attributes are read exactly"), ("decode", None, "contracts of the reading functions of the runtime, which the generated code is verified against", True)],
 "C04": [("decode", ["Node::text", "Node::try_attribute", "Node::try_child", "Node::try_next_child", "Document::try_child"], "missing parts are errors that name them")],
 "C05": [("decode", None, "contracts of the reading functions of the runtime and the lemma over call histories")],
 "C06": [("runtime", None, "contracts of the writing functions of the runtime and the lemma over call histories")],
 "C10": [("namespaces", None, "representation invariant of Namespaces, kept by get_or_insert; one-to-one lemma")],
 "C07": [("parser", OCC + PARSERS + DATA, "every particle of every group becomes one leaf with the declared occurrences"), ("node", None, NODE, True), ("emit", ["MaxOccurs::is_vec", "Leaf::is_vec", "Leaf::is_optional", "Leaf::to_impl", "ElementContent::to_impl"], "every leaf is declared as one field, in order: Option if and only if it may be missing, Vec if and only if it may repeat")],
 "C08": [("parser", REFS + PARSERS + DATA, "every reference to a built-in becomes the documented literal type, any other name there is an error"), ("node", None, NODE, True), ("emit", ["LiteralType::to_impl", "LeafContent::to_impl", "LeafDefinition::to_impl", "Name::to_impl"], "every literal is declared with its Rust type")],
 "C09": [("parser", ["simple_type::parse"] + REFS, "the enumeration values of a simple type reach the syntax tree, each once and in order"), ("node", None, NODE, True), ("emit", ["escape_enum_names"], "every enumeration value has a variant of its own, with a valid name")],
 "C11": [("parser", REFS + PARSERS + DATA + ["Context::new", "SchemaContext::resolve", "SchemaContext::is_text"], "every reference resolves by the prefix bound in the document"), ("node", None, NODE, True)],
 "C12": [("parser", PARSERS + DATA, "parsing succeeds only if every attribute and child element of every component is one that is interpreted there"), ("node", None, NODE)],
 "C13": [("schema", ["canonical_path", "Context::into_schema", "Schema::into_shared", "Schema::parse_file", "Schema::parse_file_with_context", "Schema::parse", "Schema::parse_with_context", "Schema::parse_schema", "Schema::parse_schema_with_context"], "every file that is included, directly or not, is read, and each of its top-level components is in the result; an unreadable one is an error with its name"), ("parser", ["Context::new", "Context::take_shared", "Context::set_shared", "Context::add_root", "Context::target_namespace", "Name::new"] + REFS[:1] + PARSERS, "the contracts the schema reader builds on", True)],
 "C14": [("parser", REFS + PARSERS + NAMES + DATA, "every reference from a definition is recorded as its dependency"), ("schema", ["Schema::generate_element_and_dependencies", "Schema::generate_all"], "exactly the types reachable through recorded dependencies are generated, each once, and marked")],
 "C15": [("parser", NAMES + PARSERS + ["SchemaContext::get_xml_element_name"], "derived names are new, and distinct from those of the other leaves"), ("emit", ["escape_ident", "escape_enum_names"], "every name becomes an identifier that is no keyword")],
 "C16": [("parser", PARSERS + DATA, "the leaves of an all group, and only those, are unordered")],
 "C17": [("parser", ["attribute::parse", "complex_type::parse", "simple_content::parse", "complex_content::parse"] + DATA, "every attribute declaration becomes one field as its use says, prohibited ones none"), ("decode", ["Node::attribute", "Node::try_attribute"], "an attribute reads as present exactly if it is there"), ("node", None, NODE, True), ("emit", ["Attribute::to_impl", "ElementDefinition::to_impl"], "every attribute is declared as one field, Option if and only if it is optional")],
}
# the clauses of the parser's specification that belong to a property (the rest is structure: reported under C12)
FLAGS = {"C07": ["occ"], "C08": ["lit"], "C09": ["enum"], "C11": ["ref"], "C12": ["strict"], "C14": ["dep"], "C15": ["name"], "C16": ["uno"], "C17": ["attr"]}
STRUCTURE = {"C12"}
WHOLE = {"schema"}

def collect(pid, name, fns, what, support=False, threads=4):
    u, r0, st = unit_result(name, threads)
    r = UnitResult(name); r.__dict__.update({k: v for k, v in r0.__dict__.items()}); r.what = what
    r.listed = [p for p in (fns if fns is not None else list(u.items) or list(u.fns))]
    r.functions = [p for p in r.listed if st.get(p, ("",))[0] == "PROVED"]
    r.oor = {p: st.get(p, ("OUT-OF-REACH", [r0.reason]))[1] for p in r.listed if st.get(p, ("OUT-OF-REACH",))[0] == "OUT-OF-REACH"}
    bad = [p for p in r.listed if st.get(p, ("",))[0] == "FAILED"]
    if bad and u.flags and pid in FLAGS and name not in WHOLE:
        # whose obligation is it? prove again only the clauses of this property, and only those of none
        own = unit_result(name, threads, FLAGS[pid])[2]; none = unit_result(name, threads, [])[2] if pid not in STRUCTURE else {}
        for p in list(bad):
            s = own.get(p, ("",))[0]
            if s == "PROVED": r.functions.append(p); bad.remove(p)
            elif s != "FAILED" or none.get(p, ("",))[0] == "FAILED": r.oor[p] = ["fails in clauses that are not of this property: " + "; ".join(st[p][1][:1])]; bad.remove(p)
            else: st[p] = own[p]
    r.failed = ["%s: %s" % (p, "; ".join(st[p][1][:3])) for p in bad]
    if bad and support: r.status = "OUT-OF-REACH"; r.reason = "an obligation of a function this property only builds on fails: " + "; ".join(r.failed)[:300]; r.failed = []
    elif bad: r.status = "FAILED"; r.reason = "obligation failed"
    elif r.oor: r.status = "OUT-OF-REACH"; r.reason = "; ".join("%s: %s" % (p, (m or ["?"])[0]) for p, m in r.oor.items())
    else: r.status = "PROVED"
    return r

def run(pid, th):
    res = Result()
    plan = PLAN.get(pid, [])
    if plan:
        with ThreadPoolExecutor(3) as ex: res.units = list(ex.map(lambda p: collect(pid, *p), plan))
    from . import tv
    if pid in tv.WANT:
        u, res.programs = tv.run(pid, th); res.units.append(u)
    if any(u.functions for u in res.units): res.level = INFO[pid]["level"]
    res.assumptions = INFO[pid].get("assumptions", [])
    return res
V = "contract-based deductive verification with Verus: "
TV = "contracts derived from the schema by an independent XSD interpreter (vf/ir.py, vf/tv.py) on the code the generator of /repo emits now, proved function by function for all values, documents and iterations"
PAR = "the schema parser of /repo (extracted on every run) against contracts over the schema document, for all documents"
EMT = "; then the part of the generator that declares types and names (ast/*.rs, utils.rs), over token sequences, for all syntax trees"
A_E = ["proc_macro2 and quote: a token stream is the sequence of its tokens (vf/verus/toks.rs); escape_ident is deterministic; case conversion (Inflector) never yields a lone underscore or a #; the characters an enumeration value keeps are opaque (escape_enum_names: the filter_map chain)"]
B = " The same property is also run on the real code on enumerated and random cases against an independent oracle; that part is bounded, never counted as proved, and supplies failing inputs."
A_X = ["extraction (tools/vx): Rc/RefCell/Cell erased, string types unified, iterator chains and closures restated over contracts of the prelude, ? expanded; see DESIGN.md", "contracts assumed on dependencies: roxmltree, xml-rs, std maps, vectors, strings and iterators (vf/verus/*.rs)", "the obligations do not exclude non-termination of recursion or stack overflow; integer += on counters is unchecked"]
A_TV = A_X[:2] + ["FromStr and Display of primitive types are uninterpreted functions", "the contracts of the runtime used here are proved in the units decode and runtime (C05, C06)", "the schemas are a fixed list (vf/tvcorpus.py): nothing is proved about schemas outside it", "for the writer the order of attributes and the namespace prefixes are taken from the code; that prefixes are distinct and declared is checked when the specification is generated"]
A_P = A_X + ["input of the contracts: schema components that carry a name have one that the library can derive a type name from (well_named, all_named)", "derive_mutal_prefix and friends, cleanup_docs: trusted without functional contract"]
def I(level, tech, note, ass): return dict(level=level, technique=tech, note=note + B, assumptions=ass)
INFO = {
 "C01": I("translation_validation", V + TV, "Both halves of the round trip (writing C02, reading C03) are proved per schema; that a written document read by the XML parser gives the events back, and that the two halves compose, is only explored.", A_TV + ["the composition of the two halves is not proved"]),
 "C02": I("translation_validation", V + TV, "The events handed to the XML writer are exactly those the schema prescribes for the value.", A_TV + ["xml-rs writes the events it is given"]),
 "C03": I("translation_validation", V + TV, "The value read is exactly the one the schema prescribes for the children, text and attributes of the parsed document.", A_TV + ["roxmltree parses XML"]),
 "C04": I("translation_validation", V + TV, "The error is exactly the one that applies first in reading order; unwrap and indexing are shown safe.", A_TV),
 "C05": I("proof", V + "the reading cursor of xsd/src/decode.rs, with a lemma over all call histories", "All functions of decode.rs that read children are proved.", A_X),
 "C06": I("proof", V + "the writing context of xsd/src/lib.rs, with a lemma over all call histories", "All functions of Context are proved.", A_X),
 "C07": I("translation_validation", V + PAR + EMT + "; then " + TV, "Parser and declarations of fields for all schemas; the generated code that reads and writes them on the listed ones.", A_P + A_E + A_TV[2:]),
 "C08": I("translation_validation", V + PAR + EMT + "; then " + TV, "Parser and declared types for all schemas; the generated conversions for every built-in type.", A_P + A_E + A_TV[2:]),
 "C09": I("translation_validation", V + PAR + EMT + "; then " + TV, "The values reach the syntax tree, and each gets a variant of its own, for all schemas; the conversions are proved for all strings on the listed enumerations.", A_P + A_E + A_TV[2:]),
 "C10": I("proof", V + "the namespace registry of xsd-internal", "Representation invariant and one-to-one lemma.", A_X),
 "C11": I("proof", V + PAR, "Every resolution of a reference.", A_P),
 "C12": I("proof", V + PAR, "Every parse function succeeds only if everything was read or is foreign.", A_P),
 "C13": I("proof", V + "the schema reader (parse_file and the functions under it) over an uninterpreted file system", "The set of files read is closed under include and import; all their components are in the result.", A_P + ["the file system does not change during a run; canonical paths identify files"]),
 "C14": I("proof", V + PAR + "; and the generation loop of schema.rs", "Dependencies are recorded, and exactly their closure is generated.", A_P + ["generate_element (code of one type) is trusted to emit that type only"]),
 "C15": I("translation_validation", V + PAR + EMT + "; then " + TV, "No identifier is a keyword, derived names are new, for all schemas; that generated code compiles is only explored.", A_P + A_E + A_TV[2:]),
 "C16": I("translation_validation", V + PAR + "; then " + TV, "Any-order reading on the listed schemas; the parser marks the leaves of all groups, and only those, for all schemas.", A_P + A_TV[2:]),
 "C17": I("translation_validation", V + PAR + EMT + "; then " + TV, "Declarations (parser and generated fields) for all schemas; reading and writing on the listed ones.", A_P + A_E + A_TV[2:]),
}
