"""Schemas for translation validation: small types, every construct, tagged with the properties they speak about."""
from . import corpus
from .corpus import add
POINT = '<xs:complexType name="PointT"><xs:sequence><xs:element name="x" type="xs:int"/><xs:element name="y" type="xs:int" minOccurs="0"/></xs:sequence><xs:attribute name="unit" type="xs:string" use="required"/></xs:complexType>'
COLOR = '<xs:simpleType name="ColorT"><xs:restriction base="xs:string"><xs:enumeration value="red"/><xs:enumeration value="dark-green"/><xs:enumeration value=""/><xs:enumeration value="1st"/></xs:restriction></xs:simpleType>'
AMOUNT = '<xs:complexType name="AmountT"><xs:simpleContent><xs:extension base="xs:decimal"><xs:attribute name="cur" type="xs:string" use="required"/></xs:extension></xs:simpleContent></xs:complexType>'
SHORT = '<xs:simpleType name="ShortT"><xs:restriction base="xs:string"><xs:maxLength value="40"/></xs:restriction></xs:simpleType>'
EMPTY = '<xs:complexType name="EmptyT"/>'
def el(n, t, o=""): return '<xs:element name="%s" type="%s"%s/>' % (n, t if ":" in t else "%p" + t, {"": "", "?": ' minOccurs="0"', "+": ' maxOccurs="unbounded"', "*": ' minOccurs="0" maxOccurs="unbounded"', "2": ' minOccurs="2" maxOccurs="3"', "5": ' minOccurs="0" maxOccurs="5"'}[o])
def seq(b, o=""): return "<xs:sequence%s>%s</xs:sequence>" % ({"": "", "?": ' minOccurs="0"', "+": ' maxOccurs="unbounded"', "*": ' minOccurs="0" maxOccurs="unbounded"'}[o], b)
def cho(b, o=""): return "<xs:choice%s>%s</xs:choice>" % ({"": "", "?": ' minOccurs="0"', "+": ' maxOccurs="unbounded"', "*": ' minOccurs="0" maxOccurs="unbounded"'}[o], b)
def root(b, n="root"): return '<xs:element name="%s"><xs:complexType>%s</xs:complexType></xs:element>' % (n, b)
def at(n, t, u="", x=""): return '<xs:attribute name="%s" type="%s"%s%s/>' % (n, t if ":" in t else "%p" + t, ' use="%s"' % u if u else "", x)
def ext(base, b): return '<xs:complexContent><xs:extension base="%%p%s">%s</xs:extension></xs:complexContent>' % (base, b)

def build():
    c = {}
    def a(key, conf, body, props): add(c, "v_" + key, conf, body, props.split(), False)
    X = "xs:"
    a("lit1", "q", root(seq(el("s", "xs:string") + el("b", "xs:boolean") + el("i", "xs:int") + el("d", "xs:decimal") + el("f", "xs:float") + '<xs:element name="fx" type="xs:string" fixed="A &lt; b"/>')), "C01 C02 C03 C04 C08")
    a("lit2", "u", root(seq(el("l", "xs:long") + el("n", "xs:nonNegativeInteger") + el("t", "xs:dateTime") + el("p", "xs:positiveInteger") + el("g", "xs:integer") + '<xs:element name="any"/>')), "C01 C02 C03 C04 C08")
    a("lit3", "n", el("one", "xs:string") + el("two", "xs:int") + '<xs:element name="three" type="xs:string" fixed=" x "/>' + SHORT + el("four", "ShortT"), "C01 C02 C03 C04")
    a("occ1", "n", root(seq(el("s", "xs:string", "?") + el("i", "xs:int", "+") + el("b", "xs:boolean", "*") + el("d", "xs:decimal", "2") + '<xs:element name="fx" type="xs:string" fixed="k" minOccurs="0"/>')), "C01 C02 C03 C07")
    a("occ2", "q", POINT + COLOR + root(seq(el("p", "PointT") + el("q", "PointT", "?") + el("c", "ColorT", "+") + el("r", "PointT", "5") + el("e", "ColorT", "?"))), "C02 C03 C07")
    a("occ3", "u", AMOUNT + SHORT + EMPTY + root(seq(el("p", "AmountT", "*") + el("q", "ShortT", "+") + el("c", "EmptyT", "*") + el("r", "ShortT", "?") + el("e", "AmountT"))), "C02 C03 C07")
    a("ref", "q", POINT + COLOR + el("gp", "PointT") + el("gs", "xs:string") + el("gc", "ColorT") + root(seq('<xs:element ref="%pgp"/><xs:element ref="%pgs" minOccurs="0"/><xs:element ref="%pgc" maxOccurs="unbounded"/>')), "C02 C03 C11")
    a("inl", "u", root(seq('<xs:element name="a"><xs:complexType>%s%s</xs:complexType></xs:element>' % (seq(el("v", "xs:string") + el("w", "xs:int", "?")), at("k", "xs:int")) + '<xs:element name="b" minOccurs="0"><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="A"/><xs:enumeration value="b c"/></xs:restriction></xs:simpleType></xs:element><xs:element name="c" maxOccurs="unbounded"><xs:simpleType><xs:restriction base="xs:int"><xs:maxInclusive value="9"/></xs:restriction></xs:simpleType></xs:element>')), "C01 C02 C03")
    a("ch1", "q", POINT + COLOR + '<xs:complexType name="PickT">%s</xs:complexType>' % (cho(el("s", "xs:string") + el("p", "PointT") + el("c", "ColorT") + '<xs:element name="f" type="xs:string" fixed="F"/>' + el("l", "xs:int", "+"))) + root(seq(el("a", "PickT") + el("b", "PickT", "?") + el("c", "PickT", "*"))), "C01 C02 C03 C04")
    a("ch2", "u", POINT + root(seq(el("a", "xs:string", "?") + cho(el("s", "xs:string") + el("p", "PointT"), "?") + cho(el("i", "xs:int") + seq(el("u", "xs:int") + el("w", "xs:int", "?"))))), "C01 C02 C03 C04")
    a("ch3", "n", POINT + root(seq(cho(el("s", "xs:string") + el("p", "PointT"), "+") + cho(seq(el("u", "xs:int", "?") + el("v", "xs:int")) + seq(el("w", "xs:int")), "*") + el("z", "xs:boolean"))), "C01 C02 C03 C04")
    a("ch4", "q", root(seq(cho(el("s", "xs:string", "?") + el("i", "xs:int", "*") + seq(el("m", "xs:int") + el("n", "xs:string")), "?") + el("z", "xs:boolean", "?"))), "C02 C03")
    a("ch5", "q", root(cho(el("s", "xs:string") + el("i", "xs:int") + el("l", "xs:boolean", "+")) + at("k", "xs:string", "required") + at("o", "xs:int")), "C01 C02 C03 C17")
    a("grp1", "q", root(seq(el("a", "xs:string") + seq(el("b", "xs:int") + el("c", "xs:int", "?"), "?") + cho(seq(el("d", "xs:int", "?") + el("e", "xs:int")), "*") + seq(el("f", "xs:string")))), "C01 C02 C03 C07")
    a("grp2", "u", root(seq(el("b", "xs:int") + el("c", "xs:string", "+"), "+")), "C02 C03 C07")
    a("all1", "q", root("<xs:all>" + el("s", "xs:string") + el("i", "xs:int") + el("b", "xs:boolean") + "</xs:all>"), "C01 C02 C03 C04 C16")
    a("all2", "u", POINT + COLOR + root("<xs:all>" + el("s", "xs:string", "?") + el("p", "PointT") + el("c", "ColorT", "?") + '<xs:element name="f" type="xs:string" fixed="F"/>' + "</xs:all>" + at("k", "xs:int")), "C02 C03 C16")
    a("all3", "n", '<xs:complexType name="AllT"><xs:all>' + el("s", "xs:string", "?") + el("p", "xs:int", "?") + el("c", "xs:boolean", "?") + "</xs:all></xs:complexType>" + root(seq(el("a", "AllT") + el("b", "AllT", "?"))), "C02 C03 C16")
    a("at1", "q", COLOR + root(seq(el("e", "xs:string")) + at("r", "xs:string", "required") + at("o", "xs:int", "optional") + at("u", "xs:boolean") + at("c", "ColorT") + at("p", "xs:string", "prohibited") + at("f", "xs:string", "", ' fixed="v"')), "C01 C02 C03 C04 C17")
    a("at2", "n", COLOR + SHORT + '<xs:complexType name="AT">%s</xs:complexType>' % (at("r", "ColorT", "required") + at("s", "ShortT") + at("d", "xs:decimal", "", ' default="1"') + at("rf", "xs:string", "required", ' fixed="v w"')) + root(seq(el("a", "AT") + el("b", "AT", "*"))), "C01 C02 C03 C04 C17")
    a("at3", "u", COLOR + '<xs:complexType name="SC"><xs:simpleContent><xs:extension base="%pColorT">%s</xs:extension></xs:simpleContent></xs:complexType><xs:complexType name="SD"><xs:simpleContent><xs:extension base="xs:string">%s</xs:extension></xs:simpleContent></xs:complexType>' .replace("%s", at("r", "xs:int", "required") + at("o", "xs:string")) + root(seq(el("a", "SC") + el("b", "SD", "?")) + at("z", "xs:long")), "C01 C02 C03 C17")
    a("ext1", "q", POINT + '<xs:complexType name="E1T">%s</xs:complexType>' % ext("PointT", seq(el("z", "xs:string") + el("m", "xs:int", "*")) + at("k", "xs:int", "required")) + root(seq(el("a", "E1T") + el("b", "E1T", "?"))), "C01 C02 C03 C17")
    a("ext2", "u", POINT + '<xs:complexType name="E2T">%s</xs:complexType><xs:complexType name="E3T">%s</xs:complexType>' % (ext("PointT", at("k", "xs:int", "required") + at("o", "xs:string")), ext("E2T", seq(el("z", "xs:string", "?"))  )) + root(seq(el("a", "E2T") + el("b", "E3T"))), "C01 C02 C03 C17")
    a("ext3", "q", '<xs:complexType name="BT">%s</xs:complexType>' % seq(el("x", "xs:int", "?")) + '<xs:complexType name="CT">%s</xs:complexType>' % ext("BT", seq(cho(el("l", "xs:int") + el("r", "xs:string")))) + el("root", "CT"), "C02 C03")
    a("enum1", "q", '<xs:simpleType name="OddT"><xs:restriction base="xs:string">%s</xs:restriction></xs:simpleType>' % "".join('<xs:enumeration value="%s"/>' % v for v in ["", "a", "A", "a b", "a-b", "a_b", "1", "-1", "+", "type", "Self", "self", "\u00e9", "V1", "Variant1"]) + root(seq(el("o", "OddT") + el("l", "OddT", "*")) + at("k", "OddT")), "C01 C02 C03 C04 C09")
    a("enum2", "u", '<xs:simpleType name="NumT"><xs:restriction base="xs:int">%s</xs:restriction></xs:simpleType><xs:simpleType name="OneT"><xs:restriction base="xs:string"><xs:enumeration value="only"/></xs:restriction></xs:simpleType>' % "".join('<xs:enumeration value="%s"/>' % v for v in ["1", "01", "-1", "10", "2.5", "\u00b2", " 1", "1 "]) + root(seq(el("o", "NumT") + el("l", "OneT", "?"))), "C02 C03 C09")
    a("nam1", "q", root(seq(el("type", "xs:int") + el("self", "xs:string", "?") + el("dash-ed", "xs:int") + el("dot.ted", "xs:string", "*") + el("\u00e9t\u00e9", "xs:int") + el("CamelCase", "xs:int"))  + at("fn", "xs:int") + at("crate", "xs:int", "required") + at("x-y.z", "xs:string")), "C01 C02 C03 C15 C17")
    a("nam2", "u", '<xs:complexType name="match">%s</xs:complexType><xs:complexType name="dash-typ">%s</xs:complexType>' % (seq(el("loop", "xs:int")), cho(el("Self", "xs:int") + el("en-um", "xs:string"))) + el("super", "match") + root(seq(el("a", "match") + el("b", "dash-typ"))), "C02 C03 C15")
    from . import ir
    names = sorted(ir.LITERAL)
    for k in range(0, len(names), 6): a("bi%d" % (k // 6), "nuq"[k // 6 % 3], root(seq("".join(el("e" + n, "xs:" + n) for n in names[k:k + 6])) + at("a", "xs:" + names[k])), "C08")
    for q, f in (("q", ' elementFormDefault="qualified"'), ("u", "")):
        n = 6; H = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="%s"%s%s>'
        files = {"main.xsd": H % ("urn:m", ' xmlns:m="urn:m"' + "".join(' xmlns:p%d="urn:n%d"' % (i, i) for i in range(n)), f) + "".join('<xs:import namespace="urn:n%d" schemaLocation="n%d.xsd"/>' % (i, i) for i in range(n)) + root(seq(el("own", "xs:string") + "".join('<xs:element ref="p%d:e%d"%s/>' % (i, i, ' minOccurs="0"' if i % 2 else "") for i in range(n)))) + "</xs:schema>"}
        for i in range(n): files["n%d.xsd" % i] = H % ("urn:n%d" % i, "", f) + el("e%d" % i, "xs:int") + "</xs:schema>"
        c["v_multi_" + q] = dict(main="main.xsd", tags={"C01", "C02", "C03", "C11"}, files=files)
    return c
NS = ("dflt_xsd", "dflt_tns", "two_pref", "multi_import")
CONTROL = ("v_lit1", "v_occ1", "v_grp2")
def schemas(prop=None, thorough=False):
    c = build(); out = {k: v for k, v in c.items() if prop is None or prop in v["tags"] or k in CONTROL and prop in ("C15", "C16", "C17")}
    e = corpus.enumerated()
    if prop in (None, "C02", "C03", "C04"): out.update({k: e[k] for k in NS if k in e})
    if thorough and prop in (None, "C02", "C03", "C04"): out.update(corpus.repo_schemas())
    return out
