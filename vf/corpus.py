"""The corpus of schemas: the repository's own test schemas (copied), systematically enumerated ones, random ones."""
import os, random
from . import work
HDR = '<?xml version="1.0"?>\n<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>\n%s</xs:schema>\n'
CONF = {"n": "", "u": ' targetNamespace="urn:t" xmlns:t="urn:t"', "q": ' targetNamespace="urn:t" xmlns:t="urn:t" elementFormDefault="qualified"'}
def occ(o):
    mn, mx = o
    return ("" if mn == 1 else ' minOccurs="%d"' % mn) + ("" if mx == 1 else ' maxOccurs="%s"' % ("unbounded" if mx is None else mx))
def schema(conf, body): return HDR % (CONF[conf], body)
def P(conf): return "" if conf == "n" else "t:"

# global components the kinds below refer to (prefix %p)
GLOBALS = '''
<xs:simpleType name="ColorT"><xs:restriction base="xs:string"><xs:enumeration value="red"/><xs:enumeration value="dark-green"/><xs:enumeration value=""/><xs:enumeration value="1st"/></xs:restriction></xs:simpleType>
<xs:simpleType name="ShortT"><xs:restriction base="xs:string"><xs:maxLength value="40"/></xs:restriction></xs:simpleType>
<xs:simpleType name="CountT"><xs:restriction base="xs:int"><xs:minInclusive value="-5"/></xs:restriction></xs:simpleType>
<xs:complexType name="PointT"><xs:sequence><xs:element name="x" type="xs:int"/><xs:element name="y" type="xs:int" minOccurs="0"/></xs:sequence><xs:attribute name="unit" type="xs:string" use="required"/></xs:complexType>
<xs:complexType name="EmptyT"/>
<xs:complexType name="AmountT"><xs:simpleContent><xs:extension base="xs:decimal"><xs:attribute name="cur" type="xs:string" use="required"/></xs:extension></xs:simpleContent></xs:complexType>
<xs:complexType name="PickT"><xs:choice><xs:element name="pa" type="xs:string"/><xs:element name="pb" type="%pPointT"/></xs:choice></xs:complexType>
<xs:element name="aStr" type="xs:string"/>
<xs:element name="bNum" type="xs:long"/>
<xs:element name="cFix" type="xs:string" fixed="F 1"/>
<xs:element name="dColor" type="%pColorT"/>
<xs:element name="fShorT" type="%pShortT"/>
<xs:element name="hPoinQ" type="%pPointT"/>
<xs:element name="kInL"><xs:complexType><xs:sequence><xs:element name="v" type="xs:boolean"/></xs:sequence></xs:complexType></xs:element>
'''
# kind -> element particle; %n name suffix, %o occurrence attributes, %p prefix
KINDS = {
 "str": '<xs:element name="e%n" type="xs:string"%o/>',
 "bool": '<xs:element name="e%n" type="xs:boolean"%o/>',
 "int": '<xs:element name="e%n" type="xs:int"%o/>',
 "dec": '<xs:element name="e%n" type="xs:decimal"%o/>',
 "fix": '<xs:element name="e%n" type="xs:string" fixed="Fixed &lt;%n&gt;"%o/>',
 "any": '<xs:element name="e%n"%o/>',
 "color": '<xs:element name="e%n" type="%pColorT"%o/>',
 "short": '<xs:element name="e%n" type="%pShortT"%o/>',
 "count": '<xs:element name="e%n" type="%pCountT"%o/>',
 "point": '<xs:element name="e%n" type="%pPointT"%o/>',
 "empty": '<xs:element name="e%n" type="%pEmptyT"%o/>',
 "amount": '<xs:element name="e%n" type="%pAmountT"%o/>',
 "pick": '<xs:element name="e%n" type="%pPickT"%o/>',
 "inl": '<xs:element name="e%n"%o><xs:complexType><xs:sequence><xs:element name="i%n" type="xs:string"/><xs:element name="j%n" type="xs:int" minOccurs="0"/></xs:sequence></xs:complexType></xs:element>',
 "inlenum": '<xs:element name="e%n"%o><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="A"/><xs:enumeration value="b c"/></xs:restriction></xs:simpleType></xs:element>',
 "inlsimple": '<xs:element name="e%n"%o><xs:simpleType><xs:restriction base="xs:int"><xs:maxInclusive value="9"/></xs:restriction></xs:simpleType></xs:element>',
}
REFS = {
 "rstr": '<xs:element ref="%paStr"%o/>', "rnum": '<xs:element ref="%pbNum"%o/>', "rfix": '<xs:element ref="%pcFix"%o/>', "rcolor": '<xs:element ref="%pdColor"%o/>',
 "rshort": '<xs:element ref="%pfShorT"%o/>', "rpoint": '<xs:element ref="%phPoinQ"%o/>', "rinl": '<xs:element ref="%pkInL"%o/>',
}
ALL = {**KINDS, **REFS}
def part(kind, n, o, p): return ALL[kind].replace("%n", n).replace("%o", occ(o)).replace("%p", p)
U = None
OCCS = {"11": (1, 1), "01": (0, 1), "1u": (1, U), "0u": (0, U), "23": (2, 3), "05": (0, 5), "22": (2, 2)}
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Kappa", "Lambda", "Omega", "Sigma", "Theta", "Zeta", "Iota", "Rho", "Phi", "Psi", "Chi", "Tau", "Mu", "Nu", "Xi", "Pi", "Eta", "Ups", "Omi", "Eps", "Dig", "Koppa", "Sampi", "Stig"]

def add(out, key, conf, body, tags, globals_=True):
    p = P(conf)
    b = (GLOBALS.replace("%p", p) if globals_ else "") + body.replace("%p", p)
    out[key] = dict(files={"main.xsd": schema(conf, b)}, main="main.xsd", tags=set(tags))

def root(content, attrs=""): return '<xs:element name="root"><xs:complexType>%s%s</xs:complexType></xs:element>' % (content, attrs)

def enumerated():
    out = {}
    # sequences of every kind under every occurrence
    for oc, o in OCCS.items():
        for conf in CONF:
            if oc in ("22", "05") and conf != "q": continue
            body = "".join(part(k, NAMES[i], o, "%p") for i, k in enumerate(ALL))
            add(out, "seq_%s_%s" % (oc, conf), conf, root("<xs:sequence>%s</xs:sequence>" % body), ["seq"])
    # mixed occurrences side by side
    for conf in CONF:
        ks = ["str", "int", "color", "point", "rstr", "inl", "rpoint", "fix", "amount", "short"]
        oo = [(1, 1), (0, U), (0, 1), (1, U), (0, 1), (2, 3), (1, 1), (0, 1), (0, U), (1, 1)]
        body = "".join(part(k, NAMES[i], oo[i], "%p") for i, k in enumerate(ks))
        add(out, "seq_mix_%s" % conf, conf, root("<xs:sequence>%s</xs:sequence>" % body), ["seq"])
    # complexType > choice over every kind
    for conf in CONF:
        add(out, "choice_top_%s" % conf, conf, root("<xs:choice>%s</xs:choice>" % "".join(part(k, NAMES[i], (1, 1), "%p") for i, k in enumerate(ALL))), ["choice"])
        add(out, "choice_topvec_%s" % conf, conf, root("<xs:choice>%s</xs:choice>" % "".join(part(k, NAMES[i], (1, U) if i % 2 else (2, 3), "%p") for i, k in enumerate(ALL))), ["choice"])
    # choice inside a sequence, every choice occurrence
    for oc, o in OCCS.items():
        for conf in CONF:
            if oc in ("22", "05", "23") and conf != "q": continue
            vs = "".join(part(k, NAMES[i], (1, 1), "%p") for i, k in enumerate(ALL))
            add(out, "choice_%s_%s" % (oc, conf), conf, root('<xs:sequence><xs:element name="pre" type="xs:string"/><xs:choice%s>%s</xs:choice><xs:element name="post" type="xs:int"/></xs:sequence>' % (occ(o), vs)), ["choice"])
    for oc in ("11", "01"):
        vs = "".join(part(k, NAMES[i], (1, U), "%p") for i, k in enumerate(ALL))
        add(out, "choicev_%s_q" % oc, "q", root('<xs:sequence><xs:element name="pre" type="xs:string"/><xs:choice%s>%s</xs:choice><xs:element name="post" type="xs:int"/></xs:sequence>' % (occ(OCCS[oc]), vs)), ["choice"])
    # sequence groups inside choices and sequences
    g1 = '<xs:sequence><xs:element name="sa" type="xs:string"/><xs:element name="sb" type="xs:int" minOccurs="0"/></xs:sequence>'
    g2 = '<xs:sequence><xs:element name="ta" type="xs:string" minOccurs="0"/><xs:element name="tb" type="%pPointT" maxOccurs="unbounded"/></xs:sequence>'
    g3 = '<xs:sequence minOccurs="0"><xs:element name="ua" type="xs:string" minOccurs="0"/><xs:element name="ub" type="xs:int" minOccurs="0"/><xs:element name="uc" type="xs:int" minOccurs="0" maxOccurs="unbounded"/></xs:sequence>'
    g4 = '<xs:sequence><xs:element name="va" type="xs:string" minOccurs="0"/><xs:choice><xs:element name="vb" type="xs:int"/><xs:element ref="%phPoinQ"/></xs:choice><xs:element name="vc" type="xs:int"/></xs:sequence>'
    g5 = '<xs:sequence minOccurs="0"><xs:choice minOccurs="0"><xs:element name="wa" type="xs:int"/><xs:element name="wb" type="xs:int"/></xs:choice><xs:element name="wc" type="xs:string"/></xs:sequence>'
    for conf in CONF:
        for oc in ("11", "01", "1u", "0u"):
            add(out, "grp_choice_%s_%s" % (oc, conf), conf, root('<xs:sequence><xs:choice%s>%s%s<xs:element name="single" type="xs:boolean"/></xs:choice><xs:element name="end" type="xs:string" minOccurs="0"/></xs:sequence>' % (occ(OCCS[oc]), g1, g2)), ["group", "choice"])
        add(out, "grp_top_%s" % conf, conf, root('<xs:choice>%s%s%s</xs:choice>' % (g1, g4, '<xs:element name="zz" type="xs:int" maxOccurs="unbounded"/>')), ["group", "choice"])
        add(out, "grp_seq_%s" % conf, conf, root('<xs:sequence><xs:element name="pre" type="xs:string"/>%s%s%s%s%s<xs:element name="post" type="xs:int"/></xs:sequence>' % (g1, g2, g3, g4, g5)), ["group"])
        add(out, "grp_opt_%s" % conf, conf, root('<xs:sequence>%s%s%s</xs:sequence>' % (g1.replace("<xs:sequence>", '<xs:sequence minOccurs="0">'), g2.replace("<xs:sequence>", '<xs:sequence minOccurs="0">'), g4.replace("<xs:sequence>", '<xs:sequence minOccurs="0">'))), ["group"])
    # nullable required group in front of a required element, inside an optional group
    g6 = '<xs:sequence minOccurs="0"><xs:sequence><xs:element name="ka" type="xs:int" minOccurs="0"/><xs:element name="kb" type="xs:int" minOccurs="0"/></xs:sequence><xs:element name="lc" type="xs:string"/></xs:sequence>'
    for conf in CONF:
        add(out, "grp_nullable_%s" % conf, conf, root('<xs:sequence>%s<xs:element name="tail" type="xs:string"/></xs:sequence>' % g6), ["group"])
    # a group under a choice that repeats; groups whose derived names coincide
    for conf in CONF:
        add(out, "grp_vec_%s" % conf, conf, root('<xs:choice><xs:sequence maxOccurs="unbounded"><xs:element name="sa" type="xs:string"/><xs:element name="tb" type="xs:int" minOccurs="0"/></xs:sequence><xs:sequence minOccurs="2" maxOccurs="3"><xs:element name="ma" type="xs:string" minOccurs="0"/><xs:element name="nb" type="%pPointT"/></xs:sequence><xs:element name="zz" type="xs:int"/></xs:choice>'), ["group", "choice"])
        add(out, "grp_names_%s" % conf, conf, root('<xs:sequence><xs:choice><xs:element name="wxa" type="xs:int"/><xs:element name="wxb" type="xs:int"/></xs:choice><xs:choice minOccurs="0"><xs:element name="wp" type="xs:int"/><xs:element name="wq" type="xs:string"/></xs:choice><xs:sequence minOccurs="0"><xs:choice><xs:element name="wc" type="xs:int"/><xs:element name="wd" type="xs:int"/></xs:choice><xs:element name="we" type="xs:string"/></xs:sequence></xs:sequence>'), ["group", "names"])
        add(out, "grp_inl_%s" % conf, conf, root('<xs:choice><xs:sequence><xs:element name="ka"><xs:complexType><xs:sequence><xs:element name="k1" type="xs:int"/></xs:sequence></xs:complexType></xs:element><xs:element name="lb" type="xs:string"/></xs:sequence><xs:sequence><xs:element name="mc" type="xs:string"/><xs:element name="ka"><xs:complexType><xs:sequence><xs:element name="k2" type="xs:boolean"/></xs:sequence></xs:complexType></xs:element></xs:sequence></xs:choice>'), ["group", "names"])
    # repeated / optional content model of a complexType
    for oc in ("01", "1u", "0u", "23"):
        for conf in CONF:
            add(out, "rep_%s_%s" % (oc, conf), conf, root('<xs:sequence%s><xs:element name="ra" type="xs:string"/><xs:element name="sb" type="xs:int" minOccurs="0"/><xs:element name="tc" type="%%pPointT" minOccurs="0" maxOccurs="unbounded"/></xs:sequence>' % occ(OCCS[oc]), '<xs:attribute name="at" type="xs:int"/>'), ["rep", "attr"])
            add(out, "rep2_%s_%s" % (oc, conf), conf, root('<xs:sequence%s><xs:element name="ra" type="xs:string" minOccurs="0"/><xs:choice><xs:element name="sb" type="xs:int"/><xs:element name="tc" type="%%pPointT"/></xs:choice></xs:sequence>' % occ(OCCS[oc])), ["rep"])
    # all groups
    for conf in CONF:
        ks = ["str", "int", "color", "point", "fix", "short", "inl", "rstr", "rpoint", "amount"]
        for nm, f in (("req", lambda i: (1, 1)), ("opt", lambda i: (0, 1)), ("mix", lambda i: (i % 2, 1))):
            add(out, "all_%s_%s" % (nm, conf), conf, root("<xs:all>%s</xs:all>" % "".join(part(k, NAMES[i], f(i), "%p") for i, k in enumerate(ks)), '<xs:attribute name="at" type="xs:string" use="required"/>'), ["all"])
        add(out, "all_min0_%s" % conf, conf, root('<xs:all minOccurs="0">%s</xs:all>' % "".join(part(k, NAMES[i], ((i + 1) % 2, 1), "%p") for i, k in enumerate(ks[:5]))), ["all"])
    # attributes of every type on every kind of owner
    at = {"str": 'type="xs:string"', "bool": 'type="xs:boolean"', "long": 'type="xs:long"', "dec": 'type="xs:decimal"', "color": 'type="%pColorT"', "short": 'type="%pShortT"', "count": 'type="%pCountT"', "fix": 'type="xs:string" fixed="at &quot;fixed&quot;"', "date": 'type="xs:date"'}
    def attrs():
        s = ""
        for k, t in at.items():
            s += '<xs:attribute name="r%s" %s use="required"/><xs:attribute name="o%s" %s/><xs:attribute name="p%s" %s use="optional"/><xs:attribute name="x%s" %s use="prohibited"/>' % (k.capitalize(), t, k.capitalize(), t, k.capitalize(), t, k.capitalize(), t)
        s += '<xs:attribute name="inlE"><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="yes"/><xs:enumeration value="no"/></xs:restriction></xs:simpleType></xs:attribute>'
        s += '<xs:attribute name="inlS" use="required"><xs:simpleType><xs:restriction base="xs:int"><xs:maxInclusive value="5"/></xs:restriction></xs:simpleType></xs:attribute>'
        s += '<xs:attribute name="dflt" type="xs:string" default="dd"/>'
        return s
    few = '<xs:attribute name="id" type="xs:string" use="required"/><xs:attribute name="lang" type="%pColorT"/>'
    for conf in CONF:
        add(out, "attr_empty_%s" % conf, conf, root("", attrs()), ["attr"])
        add(out, "attr_seq_%s" % conf, conf, root('<xs:sequence><xs:element name="c" type="xs:string"/></xs:sequence>', attrs()), ["attr"])
        add(out, "attr_choice_%s" % conf, conf, root('<xs:choice><xs:element name="c" type="xs:string"/><xs:element name="d" type="xs:int"/></xs:choice>', few), ["attr"])
        for b, t in (("lit", "xs:float"), ("short", "%pShortT"), ("count", "%pCountT"), ("color", "%pColorT"), ("amount", "%pAmountT"), ("str", "xs:string")):
            add(out, "simple_%s_%s" % (b, conf), conf, '<xs:element name="root"><xs:complexType><xs:simpleContent><xs:extension base="%s">%s</xs:extension></xs:simpleContent></xs:complexType></xs:element><xs:element name="outer"><xs:complexType><xs:sequence><xs:element name="one" type="%%pInT"/><xs:element name="many" type="%%pInT" minOccurs="0" maxOccurs="unbounded"/><xs:choice><xs:element name="ca" type="%%pInT"/><xs:element name="cb" type="xs:int"/></xs:choice></xs:sequence></xs:complexType></xs:element><xs:complexType name="InT"><xs:simpleContent><xs:extension base="%s">%s</xs:extension></xs:simpleContent></xs:complexType>' % (t, few, t, few), ["attr", "simple"])
    # extensions
    for conf in CONF:
        bases = '''
<xs:complexType name="BaseZero"><xs:sequence><xs:element name="b0a" type="xs:string"/><xs:element name="b0b" type="xs:int" minOccurs="0" maxOccurs="unbounded"/></xs:sequence></xs:complexType>
<xs:complexType name="BaseOne"><xs:sequence><xs:element name="b1a" type="xs:string"/></xs:sequence><xs:attribute name="b1at" type="xs:string" use="required"/><xs:attribute name="b1op" type="xs:int"/></xs:complexType>
<xs:complexType name="E0"><xs:complexContent><xs:extension base="%pBaseZero"/></xs:complexContent></xs:complexType>
<xs:complexType name="ExtOne"><xs:complexContent><xs:extension base="%pBaseZero"><xs:sequence><xs:element name="e1a" type="xs:string"/><xs:element name="e1b" type="%pPointT" minOccurs="0"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>
<xs:complexType name="E2"><xs:complexContent><xs:extension base="%pBaseZero"><xs:sequence minOccurs="0"><xs:element name="e2a" type="xs:string"/><xs:element name="e2b" type="xs:int" minOccurs="0"/></xs:sequence><xs:attribute name="e2at" type="xs:string"/></xs:extension></xs:complexContent></xs:complexType>
<xs:complexType name="ExtThree"><xs:complexContent><xs:extension base="%pBaseOne"><xs:attribute name="e3at" type="xs:string" use="required"/></xs:extension></xs:complexContent></xs:complexType>
<xs:complexType name="E5"><xs:complexContent><xs:extension base="%pExtThree"><xs:attribute name="e5at" type="xs:string" use="required"/></xs:extension></xs:complexContent></xs:complexType>
<xs:complexType name="E6"><xs:complexContent><xs:extension base="%pExtOne"><xs:sequence><xs:element name="e6a" type="xs:int"/></xs:sequence><xs:attribute name="e6at" type="xs:string" use="required"/></xs:extension></xs:complexContent></xs:complexType>
'''
        use = "".join('<xs:element name="r%s" type="%%p%s"/>' % (n.lower(), n) for n in ("E0", "ExtOne", "E2", "ExtThree", "E5", "E6"))
        use += root("<xs:sequence>%s</xs:sequence>" % "".join('<xs:element name="u%s" type="%%p%s" minOccurs="0" maxOccurs="unbounded"/>' % (n.lower(), n) for n in ("E0", "ExtOne", "E2", "ExtThree", "E5", "E6")))
        add(out, "ext_%s" % conf, conf, bases + use, ["ext"])
        b4 = '''
<xs:complexType name="BaseOne"><xs:sequence><xs:element name="b1a" type="xs:string"/></xs:sequence><xs:attribute name="b1at" type="xs:string" use="required"/><xs:attribute name="b1op" type="xs:int"/></xs:complexType>
<xs:complexType name="ExtFour"><xs:complexContent><xs:extension base="%pBaseOne"><xs:sequence><xs:element name="e4a" type="xs:string"/></xs:sequence><xs:attribute name="e4at" type="xs:string" use="required"/></xs:extension></xs:complexContent></xs:complexType>
<xs:complexType name="ExtSeven"><xs:complexContent><xs:extension base="%pExtFour"><xs:sequence><xs:element name="e7a" type="xs:int" minOccurs="0"/></xs:sequence><xs:attribute name="e7at" type="xs:string" use="required"/></xs:extension></xs:complexContent></xs:complexType>
<xs:element name="re4" type="%pExtFour"/><xs:element name="re7" type="%pExtSeven"/>
'''
        add(out, "extattr_%s" % conf, conf, b4 + root('<xs:sequence><xs:element name="ue4" type="%pExtFour" maxOccurs="unbounded"/><xs:element name="ue7" type="%pExtSeven" minOccurs="0"/></xs:sequence>'), ["ext", "extattr"])
    # every built-in type, as element, attribute, simpleContent base, restriction base, list, choice
    from .ir import LITERAL
    for conf in ("n", "q"):
        els = "".join('<xs:element name="e%s" type="xs:%s"/>' % (n[0].upper() + n[1:], n) for n in LITERAL)
        els += "".join('<xs:element name="l%s" type="xs:%s" minOccurs="0" maxOccurs="unbounded"/>' % (n[0].upper() + n[1:], n) for n in LITERAL)
        els += "".join('<xs:element name="s%s" type="%%pS%s"/>' % (n[0].upper() + n[1:], n[0].upper() + n[1:]) for n in LITERAL)
        els += "".join('<xs:element name="c%s" type="%%pC%s" minOccurs="0"/>' % (n[0].upper() + n[1:], n[0].upper() + n[1:]) for n in LITERAL)
        tys = "".join('<xs:simpleType name="S%s"><xs:restriction base="xs:%s"/></xs:simpleType>' % (n[0].upper() + n[1:], n) for n in LITERAL)
        tys += "".join('<xs:complexType name="C%s"><xs:simpleContent><xs:extension base="xs:%s"><xs:attribute name="a" type="xs:%s"/></xs:extension></xs:simpleContent></xs:complexType>' % (n[0].upper() + n[1:], n, n) for n in LITERAL)
        tys += '<xs:complexType name="ChT"><xs:choice>%s</xs:choice></xs:complexType><xs:element name="chroot" type="%%pChT"/>' % "".join('<xs:element name="h%s" type="xs:%s"/>' % (n[0].upper() + n[1:], n) for n in LITERAL)
        ats = "".join('<xs:attribute name="a%s" type="xs:%s" use="required"/>' % (n[0].upper() + n[1:], n) for n in LITERAL)
        add(out, "builtins_%s" % conf, conf, tys + root("<xs:sequence>%s</xs:sequence>" % els, ats) + "".join('<xs:element name="g%s" type="xs:%s"/>' % (n[0].upper() + n[1:], n) for n in LITERAL), ["builtin"], False)
    # nesting depth, inline types within inline types
    for conf in CONF:
        inner = '<xs:element name="leaf" type="xs:string" minOccurs="0" maxOccurs="unbounded"/>'
        for d in range(4):
            inner = '<xs:element name="lvl%d"%s><xs:complexType><xs:sequence>%s<xs:element name="side%d" type="xs:int" minOccurs="0"/></xs:sequence><xs:attribute name="at%d" type="xs:int"/></xs:complexType></xs:element>' % (d, occ([(1, 1), (0, 1), (0, U), (1, U)][d]), inner, d, d)
        add(out, "nest_%s" % conf, conf, root("<xs:sequence>%s</xs:sequence>" % inner), ["seq", "nest"], False)
        add(out, "rec_%s" % conf, conf, '<xs:complexType name="TreeT"><xs:sequence><xs:element name="label" type="xs:string"/><xs:element name="kid" type="%pTreeT" minOccurs="0" maxOccurs="unbounded"/></xs:sequence><xs:attribute name="k" type="xs:int"/></xs:complexType><xs:element name="tree" type="%pTreeT"/>', ["recursive"], False)
    # enumerations with awkward values
    vals = ["a", "A", "a b", "a-b", "a_b", "ab", "", " ", "1", "1a", "!", "?", "+", "-", "_", "é", "Variant1", "Variant2", "variant 1", "true", "type", "V1", "²", "x²", "self", "漢字", "a.b", "a:b", "A B", "self!", "Self", "<&>", '"q"', "ß"]
    en = "".join('<xs:enumeration value="%s"/>' % v.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;") for v in vals)
    for conf in CONF:
        add(out, "enums_%s" % conf, conf, '<xs:simpleType name="OddT"><xs:restriction base="xs:string">%s</xs:restriction></xs:simpleType><xs:element name="odd" type="%%pOddT"/>' % en + root('<xs:sequence><xs:element name="o" type="%pOddT"/><xs:element name="os" type="%pOddT" minOccurs="0" maxOccurs="unbounded"/></xs:sequence>', '<xs:attribute name="oa" type="%pOddT" use="required"/><xs:attribute name="ob" type="%pOddT"/>'), ["enum"], False)
    # names
    names = ["type", "break", "self", "Self", "super", "crate", "match", "async", "dash-ed", "dot.ted", "under_score", "camelCase", "PascalCase", "UPPER", "x1", "élan", "Ünïcode", "漢字", "_lead", "box", "final", "try", "yield", "macro", "abstract", "do", "virtual", "gen", "union", "static", "fn", "become", "priv", "typeof", "unsized", "override", "where", "extern", "dyn", "let"]
    for conf in ("n", "q"):
        add(out, "names_el_%s" % conf, conf, root('<xs:sequence>%s</xs:sequence>' % "".join('<xs:element name="%s" type="xs:string"/>' % n for n in names if n not in ("Self",))), ["names"], False)
        add(out, "names_at_%s" % conf, conf, root("", "".join('<xs:attribute name="%s" type="xs:string" use="%s"/>' % (n, "required" if i % 2 else "optional") for i, n in enumerate(names) if n not in ("Self",))), ["names"], False)
        add(out, "names_ch_%s" % conf, conf, root('<xs:choice>%s</xs:choice>' % "".join('<xs:element name="%s" type="xs:string"/>' % n for n in names if n not in ("Self",))), ["names"], False)
        add(out, "names_ty_%s" % conf, conf, "".join('<xs:complexType name="%s"><xs:sequence><xs:element name="v" type="xs:int"/></xs:sequence></xs:complexType>' % n for n in names if n not in ("Self", "box")) + root('<xs:sequence>%s</xs:sequence>' % "".join('<xs:element name="f%d" type="%%p%s"/>' % (i, n) for i, n in enumerate(names) if n not in ("Self", "box"))), ["names"], False)
        add(out, "names_gr_%s" % conf, conf, root('<xs:sequence><xs:choice><xs:element name="über" type="xs:string"/><xs:element name="Ärger" type="xs:int"/></xs:choice><xs:sequence minOccurs="0"><xs:element name="öl" type="xs:string"/><xs:element name="漢" type="xs:int" minOccurs="0"/></xs:sequence><xs:element name="élan"><xs:complexType><xs:sequence><xs:element name="in" type="xs:string"/></xs:sequence></xs:complexType></xs:element></xs:sequence>'), ["names"], False)
    # alternatives with minOccurs=0 (present ones; see KNOWN_FINDINGS for absent ones)
    for conf in "nq":
        z = '<xs:element name="za" type="xs:int" minOccurs="0"/><xs:element name="zb" type="%pPointT" minOccurs="0" maxOccurs="3"/><xs:sequence minOccurs="0"><xs:element name="zc" type="xs:string"/></xs:sequence><xs:element name="zd" type="xs:int"/>'
        add(out, "choice_min0_%s" % conf, conf, root('<xs:sequence><xs:choice minOccurs="0">%s</xs:choice><xs:element name="post" type="xs:int"/></xs:sequence>' % z) + '<xs:element name="rootb"><xs:complexType><xs:sequence><xs:choice maxOccurs="unbounded">%s</xs:choice></xs:sequence></xs:complexType></xs:element>' % z, ["choice"])
    # many namespaces
    for q in ("", ' elementFormDefault="qualified"'):
        k = "multi_many" + ("q" if q else "u"); ls = "abcdefghijkl"
        fs = {l + ".xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:%s" xmlns:me="urn:%s"%s><xs:element name="x%s" type="xs:int"/><xs:element name="y%s" type="me:T%s"/><xs:complexType name="T%s"><xs:sequence><xs:element name="in%s" type="xs:string"/></xs:sequence></xs:complexType></xs:schema>' % (l, l, q, l, l, l, l, l) for l in ls}
        fs["main.xsd"] = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:main" %s%s>%s<xs:element name="root"><xs:complexType><xs:sequence>%s</xs:sequence></xs:complexType></xs:element></xs:schema>' % (
            " ".join('xmlns:%s="urn:%s"' % (l, l) for l in ls), q, "".join('<xs:import namespace="urn:%s" schemaLocation="%s.xsd"/>' % (l, l) for l in ls), "".join('<xs:element ref="%s:x%s" minOccurs="0"/><xs:element ref="%s:y%s" minOccurs="0"/>' % (l, l, l, l) for l in ls))
        out[k] = dict(main="main.xsd", tags={"multi"}, files=fs)
    # multi-file
    out["multi_import"] = dict(main="main.xsd", tags={"multi"}, files={
        "main.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:m" xmlns:m="urn:m" xmlns:a="urn:a" xmlns:b="urn:b" elementFormDefault="qualified"><xs:import namespace="urn:a" schemaLocation="sub/a.xsd"/><xs:import namespace="urn:b" schemaLocation="b.xsd"/><xs:include schemaLocation="sub/inc.xsd"/><xs:element name="root"><xs:complexType><xs:sequence><xs:element name="va" type="a:AT"/><xs:element name="vb" type="b:BT" minOccurs="0"/><xs:element name="vi" type="m:IT"/><xs:element ref="a:ael"/><xs:element ref="b:bel" minOccurs="0" maxOccurs="unbounded"/><xs:choice><xs:element ref="a:ael2"/><xs:element name="loc" type="xs:string"/></xs:choice></xs:sequence></xs:complexType></xs:element></xs:schema>',
        "sub/a.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:a" xmlns:q="urn:a" xmlns:z="urn:b" elementFormDefault="qualified"><xs:import namespace="urn:b" schemaLocation="../b.xsd"/><xs:complexType name="AT"><xs:sequence><xs:element name="ax" type="xs:string"/><xs:element name="ay" type="z:BT"/></xs:sequence><xs:attribute name="aat" type="q:EnT"/></xs:complexType><xs:simpleType name="EnT"><xs:restriction base="xs:string"><xs:enumeration value="one"/><xs:enumeration value="two"/></xs:restriction></xs:simpleType><xs:element name="ael" type="q:AT"/><xs:element name="ael2" type="xs:int"/></xs:schema>',
        "b.xsd": '<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:b" elementFormDefault="qualified"><xsd:complexType name="BT"><xsd:sequence><xsd:element name="bx" type="xsd:int"/></xsd:sequence></xsd:complexType><xsd:element name="bel" type="xsd:string"/></xsd:schema>',
        "sub/inc.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:m" xmlns:k="urn:m" elementFormDefault="qualified"><xs:include schemaLocation="deep/inc2.xsd"/><xs:complexType name="IT"><xs:sequence><xs:element name="ix" type="k:JT" minOccurs="0"/></xs:sequence></xs:complexType></xs:schema>',
        "sub/deep/inc2.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:m" xmlns:kk="urn:m" elementFormDefault="qualified"><xs:complexType name="JT"><xs:attribute name="j" type="xs:int" use="required"/></xs:complexType></xs:schema>'})
    out["multi_unq"] = dict(main="main.xsd", tags={"multi"}, files={
        "main.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:m" xmlns:m="urn:m" xmlns:a="urn:a"><xs:import namespace="urn:a" schemaLocation="a.xsd"/><xs:element name="root"><xs:complexType><xs:sequence><xs:element name="va" type="a:AT"/><xs:element ref="a:ael"/><xs:element ref="m:mel" minOccurs="0"/></xs:sequence></xs:complexType></xs:element><xs:element name="mel" type="xs:string"/></xs:schema>',
        "a.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:a" xmlns:a="urn:a" elementFormDefault="qualified"><xs:complexType name="AT"><xs:choice><xs:element name="ax" type="xs:string"/><xs:element name="ay" type="xs:int"/></xs:choice></xs:complexType><xs:element name="ael" type="a:AT"/></xs:schema>'})
    q = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:m" xmlns:m="urn:m" elementFormDefault="qualified">%s</xs:schema>'
    out["multi_cycle"] = dict(main="main.xsd", tags={"multi"}, files={
        "main.xsd": q % '<xs:include schemaLocation="a.xsd"/><xs:include schemaLocation="./sub/../b.xsd"/><xs:element name="root" type="m:RT"/><xs:complexType name="RT"><xs:sequence><xs:element name="a" type="m:AT"/><xs:element name="b" type="m:BT" minOccurs="0" maxOccurs="unbounded"/></xs:sequence></xs:complexType>',
        "a.xsd": q % '<xs:include schemaLocation="b.xsd"/><xs:include schemaLocation="main.xsd"/><xs:complexType name="AT"><xs:sequence><xs:element name="av" type="xs:int"/><xs:element name="ab" type="m:BT" minOccurs="0"/></xs:sequence></xs:complexType>',
        "sub/x.xsd": q % '',
        "b.xsd": q % '<xs:include schemaLocation="a.xsd"/><xs:include schemaLocation="b.xsd"/><xs:complexType name="BT"><xs:sequence><xs:element name="bv" type="xs:string"/></xs:sequence><xs:attribute name="x" type="xs:int"/></xs:complexType>'})
    out["dflt_xsd"] = dict(main="main.xsd", tags={"ns"}, files={"main.xsd": '<schema xmlns="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:d" xmlns:d="urn:d" elementFormDefault="qualified"><complexType name="T"><sequence><element name="s" type="string"/><element name="n" type="int" minOccurs="0"/><element name="r" type="d:T2" maxOccurs="unbounded"/></sequence></complexType><complexType name="T2"><attribute name="q" type="boolean" use="required"/></complexType><element name="root" type="d:T"/></schema>'})
    out["dflt_tns"] = dict(main="main.xsd", tags={"ns"}, files={"main.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:d" xmlns="urn:d" elementFormDefault="qualified"><xs:complexType name="T"><xs:sequence><xs:element name="s" type="xs:string"/><xs:element name="r" type="T2" maxOccurs="unbounded"/></xs:sequence></xs:complexType><xs:complexType name="T2"><xs:attribute name="q" type="E2" use="required"/></xs:complexType><xs:simpleType name="E2"><xs:restriction base="xs:string"><xs:enumeration value="k"/></xs:restriction></xs:simpleType><xs:element name="root" type="T"/></xs:schema>'})
    out["two_pref"] = dict(main="main.xsd", tags={"ns"}, files={"main.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:ys="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:d" xmlns:t1="urn:d" xmlns:t2="urn:d"><xs:complexType name="T"><xs:sequence><xs:element name="s" type="ys:string"/><ys:element name="r" type="t2:T2" maxOccurs="unbounded"/></xs:sequence></xs:complexType><xs:complexType name="T2"><xs:attribute name="q" type="ys:int" use="required"/></xs:complexType><xs:element name="root" type="t1:T"/></xs:schema>'})
    return out

def repo_schemas():
    d = os.path.join(work.VERIF, "corpus", "repo"); out = {}
    subs = {"import_other.xsd", "include_other.xsd"}
    for f in sorted(os.listdir(d)):
        files = {f: open(os.path.join(d, f)).read()}
        for s in os.listdir(d): files.setdefault(s, open(os.path.join(d, s)).read())
        out["repo_" + f[:-4].replace("-", "_").replace(".", "_")] = dict(main=f, files=files, tags={"repo"})
    return out

# ---------------------------------------------------------------- random schemas
def rand_schema(rnd):
    conf = rnd.choice(["n", "u", "q"]); p = P(conf); cnt = [0]
    def nm(pre="e"):
        cnt[0] += 1; c = cnt[0]
        return "lmnoprstuvwxyz"[c % 14] + "aeiou"[c % 5] + "bdfg"[c // 14 % 4] + "aeiou"[c // 5 % 5] + "bcdfghjkmpqvwxz"[c * 4 % 15]
    def o(opts=((1, 1), (1, 1), (0, 1), (1, U), (0, U), (2, 4))): return rnd.choice(opts)
    def elem(depth, oo=None):
        oo = oo or o()
        k = rnd.choice(list(ALL)) if rnd.random() < 0.75 or depth > 2 else "deep"
        if k == "deep": return '<xs:element name="%s"%s><xs:complexType>%s</xs:complexType></xs:element>' % (nm(), occ(oo), content(depth + 1))
        if k in REFS and k in used: k = rnd.choice(list(KINDS))
        if k in REFS: used.add(k)
        return ALL[k].replace("e%n", nm()).replace("i%n", "inI").replace("j%n", "jnJ").replace("%n", "qq").replace("%o", occ(oo)).replace("%p", p)
    def seqitems(depth, n=None):
        s = ""
        for _ in range(n or rnd.randint(1, 4)):
            r = rnd.random()
            if r < 0.7 or depth > 2: s += elem(depth)
            elif r < 0.87: s += '<xs:choice%s>%s</xs:choice>' % (occ(o()), chitems(depth + 1))
            else: s += '<xs:sequence%s>%s</xs:sequence>' % (occ(rnd.choice([(1, 1), (0, 1)])), seqitems(depth + 1))
        return s
    def chitems(depth):
        s = ""
        for _ in range(rnd.randint(2, 4)):
            if rnd.random() < 0.75 or depth > 2: s += elem(depth, o(((1, 1), (1, 1), (1, U), (2, 3))))
            else: s += '<xs:sequence>%s</xs:sequence>' % (elem(depth, o(((1, 1), (0, 1), (1, U)))) + elem(depth, (1, 1)))
        return s
    def attrs():
        s = ""
        for _ in range(rnd.choice([0, 0, 1, 2])):
            s += '<xs:attribute name="%s" type="%s"%s/>' % (nm("a"), rnd.choice(["xs:string", "xs:int", "xs:boolean", p + "ColorT", p + "ShortT"]), rnd.choice(["", ' use="required"', ' use="optional"']))
        return s
    def content(depth):
        r = rnd.random()
        used_save = set(used)
        if r < 0.6: return '<xs:sequence%s>%s</xs:sequence>%s' % (occ(o(((1, 1), (1, 1), (1, 1), (0, 1), (1, U)))), seqitems(depth), attrs())
        if r < 0.75: return '<xs:choice>%s</xs:choice>%s' % (chitems(depth), attrs())
        if r < 0.88: return '<xs:all>%s</xs:all>%s' % ("".join(elem(depth + 1, o(((1, 1), (0, 1)))) for _ in range(rnd.randint(1, 4))), attrs())
        return '<xs:simpleContent><xs:extension base="%s">%s</xs:extension></xs:simpleContent>' % (rnd.choice(["xs:string", "xs:int", p + "ColorT", p + "ShortT", p + "AmountT"]), attrs())
    used = set()
    body = ""
    tn = []
    for i in range(rnd.randint(1, 3)):
        used.clear()
        t = "Type" + "ABC"[i] + "z"; body += '<xs:complexType name="%s">%s</xs:complexType>' % (t, content(0)); tn.append(t)
        body += '<xs:element name="r%s" type="%s%s"/>' % (t.lower(), p, t)
    if rnd.random() < 0.6:
        used.clear()
        body += '<xs:complexType name="ExtZ"><xs:complexContent><xs:extension base="%sBaseZ">%s%s</xs:extension></xs:complexContent></xs:complexType><xs:complexType name="BaseZ"><xs:sequence>%s</xs:sequence></xs:complexType><xs:element name="rextz" type="%sExtZ"/>' % (p, rnd.choice(["", "<xs:sequence>%s</xs:sequence>" % seqitems(1)]), attrs(), seqitems(1), p)
    return dict(main="main.xsd", tags={"random"}, files={"main.xsd": schema(conf, GLOBALS.replace("%p", p) + body)})

def random_schemas(seed, n):
    out = {}
    for i in range(n):
        out["rnd_%d_%d" % (seed, i)] = rand_schema(random.Random(seed * 100003 + i))
    return out

def put(corpus):
    """writes the schema files; returns {key: path of the main file}"""
    paths = {}
    for k, c in corpus.items():
        d = os.path.join(work.TARGET, "w", "xsd", k)
        for f, s in c["files"].items(): work.write(os.path.join(d, f), s)
        paths[k] = os.path.join(d, c["main"])
    return paths

def known():
    """schemas on which the unchanged tree breaks a property (KNOWN_FINDINGS); each violation on them is keyed by the schema"""
    out = {}
    add(out, "kf_same_name", "q", '<xs:complexType name="item"><xs:sequence><xs:element name="v" type="xs:int"/></xs:sequence></xs:complexType><xs:element name="item" type="%pitem"/>', ["kf"], False)
    add(out, "kf_choice_empty", "q", root('<xs:choice><xs:element name="va" type="xs:int" minOccurs="0"/><xs:element name="vb" type="xs:string"/></xs:choice>'), ["kf"], False)
    out["kf_mixed_form"] = dict(main="main.xsd", tags={"kf"}, files={
        "main.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:m" xmlns:m="urn:m" xmlns:a="urn:a" elementFormDefault="qualified"><xs:import namespace="urn:a" schemaLocation="a.xsd"/><xs:element name="root"><xs:complexType><xs:sequence><xs:element name="mx" type="a:AT"/></xs:sequence></xs:complexType></xs:element></xs:schema>',
        "a.xsd": '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:a"><xs:complexType name="AT"><xs:sequence><xs:element name="ax" type="xs:int"/></xs:sequence></xs:complexType></xs:schema>'})
    return out
