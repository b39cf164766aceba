// ---- what a schema document means, in terms of the syntax tree the parser builds ------------------------------------
pub open spec fn nm(n: RN) -> XStr { *n.tag_name_s().n }
pub open spec fn at(n: RN, k: XStr) -> Option<XStr> { ostr(n.attribute_s(&k)) }

/// the particles among the first p child elements of a group
pub open spec fn parts<'a, 'i>(n: RN<'a, 'i>, p: int) -> Seq<RN<'a, 'i>> { xfilter(xk(n).take(p), |c: &RN<'a, 'i>| nm(*c) != xlit_s("annotation")) }
pub open spec fn grp<'a, 'i>(n: RN<'a, 'i>) -> Seq<RN<'a, 'i>> { parts(n, xk(n).len() as int) }
pub broadcast proof fn lemma_parts<'a, 'i>(n: RN<'a, 'i>, p: int, q: int) requires 0 <= p, q == p + 1, q <= xk(n).len()
    ensures #![trigger parts(n, p), parts(n, q)] parts(n, q) == (if nm(xk(n)[p]) != xlit_s("annotation") { parts(n, p).push(xk(n)[p]) } else { parts(n, p) })
{ let s = xk(n).take(p + 1); assert(s.drop_last() =~= xk(n).take(p)); assert(s.last() == xk(n)[p]); }
pub broadcast proof fn lemma_parts0<'a, 'i>(n: RN<'a, 'i>) ensures (#[trigger] parts(n, 0)) == Seq::<RN<'a, 'i>>::empty() { assert(xk(n).take(0) =~= Seq::<RN<'a, 'i>>::empty()); }
/// the local parts of extension bases are not empty (an empty one is no qualified name); everything below a node
#[verifier::opaque]
pub open spec fn well_named(n: RN) -> bool decreases n.height_s() {
    (at(n, xlit_s("base")) is Some ==> split2(at(n, xlit_s("base"))->0, ':').last()@.len() > 0)
    && forall|i: int| 0 <= i < n.children_s().len() && 0 <= (#[trigger] n.children_s()[i]).height_s() < n.height_s() ==> well_named(n.children_s()[i])
}
pub open spec fn low(c: RN, n: RN) -> bool { 0 <= c.height_s() < n.height_s() }
pub open spec fn kid(c: RN, n: RN) -> bool { low(c, n) && in_ns(c, xns()) && c.is_element_s() && (well_named(n) ==> well_named(c)) }
pub open spec fn kids_of(s: Seq<RN>, n: RN) -> bool { forall|i: int| 0 <= i < s.len() ==> kid(#[trigger] s[i], n) }
pub broadcast proof fn lemma_kids<'a, 'i>(n: RN<'a, 'i>) ensures kids_of(#[trigger] xk(n), n)
{
    broadcast use lemma_xfilter; reveal(well_named);
    let g = |c: &RN<'a, 'i>| fpass(*c, xsd_filter()); lemma_xfilter(n.children_s(), g);
    assert forall|i: int| 0 <= i < xk(n).len() implies kid(#[trigger] xk(n)[i], n) by { assert(g(&xk(n)[i])); assert(n.children_s().contains(xk(n)[i])); let j = choose|j: int| 0 <= j < n.children_s().len() && n.children_s()[j] == xk(n)[i]; assert(n.children_s()[j].height_s() < n.height_s()); }
}
pub broadcast proof fn lemma_kids_rm<'a, 'i>(s: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, name: XStr) requires #[trigger] kids_of(s, n) ensures kids_of(#[trigger] rm(s, name), n)
{ broadcast use lemma_first_q; }
/// the first of a name, when all are schema elements: by local name
pub broadcast proof fn lemma_fq<'a, 'i>(s: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, name: XStr) requires #[trigger] kids_of(s, n)
    ensures ({ let i = #[trigger] fq(s, name); 0 <= i <= s.len() && (i < s.len() ==> nm(s[i]) == name) && (forall|j: int| 0 <= j < i ==> nm(#[trigger] s[j]) != name) })
{ broadcast use lemma_first_q; let i = fq(s, name); assert forall|j: int| 0 <= j < i implies nm(#[trigger] s[j]) != name by { assert(kid(s[j], n)); assert(!qmatch(s[j], name, Some(&xns()))); } }

// ---- the context -----------------------------------------------------------------------------------------------------
pub open spec fn dep(c: Context, parent: Name, name: Name) -> bool { c.shared.dependencies@.dom().contains(parent) && c.shared.dependencies@[parent]@.contains(name) }
pub open spec fn ns_is(s: Namespaces, ns: Namespace, u: XStr) -> bool { ns is Id && s.by_id@.dom().contains(ns->Id_0) && s.by_id@[ns->Id_0].namespace == u && s.by_namespace@.dom().contains(u) && s.by_namespace@[u] == ns->Id_0 }
pub open spec fn ns_ext(a: Namespaces, b: Namespaces) -> bool {
    (forall|u: XStr| #[trigger] a.by_namespace@.dom().contains(u) ==> b.by_namespace@.dom().contains(u) && b.by_namespace@[u] == a.by_namespace@[u])
    && (forall|i: usize| #[trigger] a.by_id@.dom().contains(i) ==> b.by_id@.dom().contains(i) && b.by_id@[i] == a.by_id@[i])
}
pub open spec fn ctx_wf(c: Context) -> bool { c.shared.namespaces.wf() && (c.target_namespace is Id ==> c.shared.namespaces.by_id@.dom().contains(c.target_namespace->Id_0)) }
/// what never changes while one schema file is parsed
pub open spec fn same_file(a: Context, b: Context) -> bool { a.document_namespaces == b.document_namespaces && a.default_namespace == b.default_namespace && a.target_namespace == b.target_namespace && a.is_qualified == b.is_qualified && a.shared.files == b.shared.files }
/// b holds everything a holds
#[verifier::opaque]
pub open spec fn cext(a: Context, b: Context) -> bool {
    same_file(a, b) && ns_ext(a.shared.namespaces, b.shared.namespaces)
    && (forall|k: Name| #[trigger] a.roots@.dom().contains(k) ==> b.roots@.dom().contains(k) && b.roots@[k] == a.roots@[k])
    && (forall|p: Name, k: Name| #[trigger] dep(a, p, k) ==> dep(b, p, k))
}
pub broadcast proof fn lemma_cext_refl(a: Context) ensures #[trigger] cext(a, a) { reveal(cext); }
pub broadcast proof fn lemma_cext_trans(a: Context, b: Context, c: Context) requires #[trigger] cext(a, b), #[trigger] cext(b, c) ensures cext(a, c) { reveal(cext); }
pub broadcast proof fn lemma_cext_file(a: Context, b: Context) requires #[trigger] cext(a, b) ensures same_file(a, b) { reveal(cext); }
pub broadcast proof fn lemma_cext_dep(a: Context, b: Context, p: Name, k: Name) requires #[trigger] cext(a, b), #[trigger] dep(a, p, k) ensures dep(b, p, k) { reveal(cext); }
pub broadcast proof fn lemma_cext_root(a: Context, b: Context, k: Name) requires #[trigger] cext(a, b), #[trigger] a.roots@.dom().contains(k) ensures b.roots@.dom().contains(k), b.roots@[k] == a.roots@[k] { reveal(cext); }
/// every new definition has a name longer than the parent's
pub open spec fn grew(a: Context, b: Context, parent: Name) -> bool { forall|k: Name| #[trigger] b.roots@.dom().contains(k) && !a.roots@.dom().contains(k) ==> k.name@.len() > parent.name@.len() }
pub open spec fn node_ns(c: Context, top: bool) -> Namespace { if c.is_qualified || top { c.target_namespace } else { Namespace::None } }

// ---- references ------------------------------------------------------------------------------------------------------
pub open spec fn lit_of(s: XStr) -> Option<LiteralType> {
    if s == xlit_s("string") { Some(LiteralType::String) } else if s == xlit_s("boolean") { Some(LiteralType::Boolean) } else if s == xlit_s("integer") || s == xlit_s("long") { Some(LiteralType::Int64) }
    else if s == xlit_s("nonNegativeInteger") || s == xlit_s("positiveInteger") { Some(LiteralType::Uint64) } else if s == xlit_s("int") { Some(LiteralType::Int32) } else if s == xlit_s("decimal") { Some(LiteralType::Decimal) }
    else if s == xlit_s("float") { Some(LiteralType::Float32) } else if s == xlit_s("time") { Some(LiteralType::Time) } else if s == xlit_s("date") { Some(LiteralType::Date) } else if s == xlit_s("dateTime") { Some(LiteralType::DateTime) }
    else if s == xlit_s("duration") { Some(LiteralType::Duration) } else if s == xlit_s("base64Binary") { Some(LiteralType::Base64Binary) } else if s == xlit_s("hexBinary") { Some(LiteralType::HexBinary) }
    else if s == xlit_s("any") || s == xlit_s("anyType") { Some(LiteralType::Any) } else { None }
}
/// the namespace a reference is in: None if its prefix is not bound
pub open spec fn ref_ns(c: Context, s: XStr) -> Option<Option<XStr>> {
    if s@.contains(':') { let p = split2(s, ':')[0]; if c.document_namespaces@.dom().contains(&p) { Some(Some(*c.document_namespaces@[&p])) } else { None } }
    else { match c.default_namespace { None => Some(None), Some(u) => if *u == xlit_s("") { Some(None) } else { Some(Some(*u)) } } }
}
pub open spec fn local(s: XStr) -> XStr { split2(s, ':').last() }
/// the built-in type a reference means
pub open spec fn blit(c: Context, s: XStr) -> Option<LiteralType> { if ref_ns(c, s) == Some(Some(xns())) { lit_of(local(s)) } else { None } }
/// a literal type for a reference: the reference is in the schema namespace, and names that built-in
pub open spec fn lref_ok(l: LiteralType, s: XStr, c: Context) -> bool { (fl_ref() ==> ref_ns(c, s) == Some(Some(xns()))) && (fl_lit() && ref_ns(c, s) == Some(Some(xns())) ==> lit_of(local(s)) == Some(l)) }
pub open spec fn tref_ok(t: LeafContent, s: XStr, c: Context) -> bool {
    match t {
        LeafContent::Literal(l) => lref_ok(l, s, c),
        LeafContent::Named(n) => n.name@.len() == local(s)@.len() && (fl_ref() ==> n.name == local(s) && (match ref_ns(c, s) { None => false, Some(None) => n.namespace is None, Some(Some(u)) => u != xns() && ns_is(c.shared.namespaces, n.namespace, u) })),
        LeafContent::Fixed(_) => false,
    }
}
/// the content of something with a type attribute, and possibly a fixed value
pub open spec fn typed_ok(t: LeafContent, s: XStr, n: RN, parent: Name, c: Context) -> bool {
    match t {
        LeafContent::Named(k) => tref_ok(t, s, c) && (fl_dep() ==> dep(c, parent, k)),
        LeafContent::Literal(_) => tref_ok(t, s, c) && at(n, xlit_s("fixed")) is None,
        LeafContent::Fixed(f) => at(n, xlit_s("fixed")) == Some(f) && (fl_ref() ==> ref_ns(c, s) == Some(Some(xns()))) && (fl_lit() && ref_ns(c, s) == Some(Some(xns())) ==> lit_of(local(s)) is Some),
    }
}
pub open spec fn min_of(n: RN) -> Option<MinOccurs> { match at(n, xlit_s("minOccurs")) { None => Some(MinOccurs(1)), Some(s) => match <u32 as XFromStr>::parse_s(s) { Some(v) => Some(MinOccurs(v)), None => None } } }
pub open spec fn max_of(n: RN) -> Option<MaxOccurs> { match at(n, xlit_s("maxOccurs")) { None => Some(MaxOccurs::Number(1)), Some(s) => if s == xlit_s("unbounded") { Some(MaxOccurs::Unbounded) } else { match <u32 as XFromStr>::parse_s(s) { Some(v) => Some(MaxOccurs::Number(v)), None => None } } } }
pub open spec fn min_ok(l: Leaf, n: RN) -> bool { fl_occ() ==> Some(l.min_occurs) == min_of(n) }
pub open spec fn max_ok(l: Leaf, n: RN) -> bool { fl_occ() ==> Some(l.max_occurs) == max_of(n) }
pub open spec fn is_vec_s(m: MaxOccurs) -> bool { match m { MaxOccurs::Unbounded => true, MaxOccurs::Number(n) => n > 1 } }

// ---- simple types ----------------------------------------------------------------------------------------------------
pub open spec fn facet(k: XStr) -> bool { k == xlit_s("enumeration") || k == xlit_s("length") || k == xlit_s("minLength") || k == xlit_s("maxLength") || k == xlit_s("pattern") || k == xlit_s("minInclusive") || k == xlit_s("maxInclusive") || k == xlit_s("fractionDigits") || k == xlit_s("totalDigits") }
pub open spec fn enum_names(s: Seq<RN>) -> Seq<Name> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let r = enum_names(s.drop_last()); let l = s.last(); if nm(l) == xlit_s("enumeration") { r.push(Name { name: at(l, xlit_s("value"))->0, namespace: Namespace::None }) } else { r } }
}
pub open spec fn enums<'a, 'i>(n: RN<'a, 'i>, p: int) -> Seq<Name> { enum_names(xk(n).take(p)) }
pub broadcast proof fn lemma_enums<'a, 'i>(n: RN<'a, 'i>, p: int, q: int) requires 0 <= p, q == p + 1, q <= xk(n).len()
    ensures #![trigger enums(n, p), enums(n, q)] enums(n, q) == (if nm(xk(n)[p]) == xlit_s("enumeration") { enums(n, p).push(Name { name: at(xk(n)[p], xlit_s("value"))->0, namespace: Namespace::None }) } else { enums(n, p) })
{ let s = xk(n).take(p + 1); assert(s.drop_last() =~= xk(n).take(p)); assert(s.last() == xk(n)[p]); }
pub broadcast proof fn lemma_enums0<'a, 'i>(n: RN<'a, 'i>) ensures (#[trigger] enums(n, 0)) == Seq::<Name>::empty() { assert(xk(n).take(0) =~= Seq::<RN<'a, 'i>>::empty()); }
pub open spec fn restr<'a, 'i>(n: RN<'a, 'i>) -> RN<'a, 'i> { rm(xk(n), xlit_s("annotation"))[0] }
pub open spec fn all_enums(n: RN) -> Seq<Name> { enums(restr(n), xk(restr(n)).len() as int) }
pub open spec fn facets_ok(n: RN, p: int) -> bool { forall|i: int| 0 <= i < p ==> facet(nm(#[trigger] xk(n)[i])) && at(xk(n)[i], xlit_s("value")) is Some }
/// a simple type: one restriction of a built-in type, with supported facets only
pub open spec fn simple_decl(n: RN, c: Context) -> bool {
    let k = rm(xk(n), xlit_s("annotation"));
    k.len() == 1 && nm(k[0]) == xlit_s("restriction") && at(k[0], xlit_s("base")) is Some && facets_ok(k[0], xk(k[0]).len() as int)
}
/// the built-in type a simple type restricts
pub open spec fn simple_lit(t: LeafContent, n: RN, c: Context) -> bool { t is Literal && lref_ok(t->Literal_0, at(restr(n), xlit_s("base"))->0, c) }
pub open spec fn simple_ok(r: Root, n: RN, c: Context) -> bool {
    simple_decl(n, c) && (if all_enums(n).len() == 0 { r is Leaf && simple_lit(r->Leaf_0.content, n, c) } else { r is Enum && (fl_enum() ==> r->Enum_0@ == all_enums(n)) })
}

// ---- attributes ------------------------------------------------------------------------------------------------------
pub open spec fn prohibited(n: RN) -> bool { at(n, xlit_s("use")) == Some(xlit_s("prohibited")) }
/// what the declaration of an attribute must look like
pub open spec fn attr_decl(n: RN, c: Context) -> bool {
    let k = rm(xk(n), xlit_s("annotation")); let u = at(n, xlit_s("use"));
    at(n, xlit_s("name")) is Some && (fl_attr() ==> u is None || u == Some(xlit_s("required")) || u == Some(xlit_s("optional")) || u == Some(xlit_s("prohibited")))
    && (if k.len() > 0 { k.len() == 1 && nm(k[0]) == xlit_s("simpleType") && simple_decl(k[0], c) && (fl_strict() ==> no_attrs(k[0])) } else { at(n, xlit_s("type")) is Some && (fl_ref() ==> ref_ns(c, at(n, xlit_s("type"))->0) is Some) })
    && (fl_strict() ==> forall|a: XStr| (#[trigger] n.attribute_s(&a)) is Some ==> a == xlit_s("name") || a == xlit_s("use") || a == xlit_s("default") || (k.len() == 0 && (a == xlit_s("type") || (a == xlit_s("fixed") && (fl_ref() && fl_lit() ==> blit(c, at(n, xlit_s("type"))->0) is Some)))))
    && (fl_attr() && u == Some(xlit_s("required")) ==> at(n, xlit_s("default")) is None)
}
pub open spec fn no_attrs(n: RN) -> bool { forall|a: XStr| (#[trigger] n.attribute_s(&a)) is None }
pub open spec fn attr_ok(a: AstAttribute, n: RN, parent: Name, c: Context) -> bool {
    let k = rm(xk(n), xlit_s("annotation"));
    (fl_attr() ==> a.name == (Name { name: at(n, xlit_s("name"))->0, namespace: Namespace::None }) && a.default == at(n, xlit_s("default")) && a.is_optional == (at(n, xlit_s("use")) != Some(xlit_s("required"))))
    && (if k.len() > 0 {
            if all_enums(k[0]).len() == 0 { simple_lit(a.content, k[0], c) }
            else { a.content is Named && (fl_dep() ==> dep(c, parent, a.content->Named_0)) && c.roots@.dom().contains(a.content->Named_0) && simple_ok(c.roots@[a.content->Named_0], k[0], c) }
        } else { typed_ok(a.content, at(n, xlit_s("type"))->0, n, parent, c) })
}
/// the attributes of a type: one per declaration that is not prohibited, in order
pub open spec fn attrs_ok(a: Seq<AstAttribute>, s: Seq<RN>, parent: Name, c: Context) -> bool decreases s.len() {
    if s.len() == 0 { a.len() == 0 } else {
        let l = s.last();
        nm(l) == xlit_s("attribute") && attr_decl(l, c) && (if prohibited(l) { attrs_ok(a, s.drop_last(), parent, c) } else { a.len() > 0 && attr_ok(a.last(), l, parent, c) && attrs_ok(a.drop_last(), s.drop_last(), parent, c) })
    }
}
pub broadcast proof fn lemma_attrs_push<'a, 'i>(a: Seq<AstAttribute>, s: Seq<RN<'a, 'i>>, parent: Name, c: Context, l: RN<'a, 'i>, x: AstAttribute)
    requires attrs_ok(a, s, parent, c), nm(l) == xlit_s("attribute"), attr_decl(l, c), !prohibited(l), attr_ok(x, l, parent, c) ensures #[trigger] attrs_ok(a.push(x), s.push(l), parent, c)
{ assert(a.push(x).drop_last() =~= a); assert(s.push(l).drop_last() =~= s); }
pub broadcast proof fn lemma_attrs_skip<'a, 'i>(a: Seq<AstAttribute>, s: Seq<RN<'a, 'i>>, parent: Name, c: Context, l: RN<'a, 'i>)
    requires attrs_ok(a, s, parent, c), nm(l) == xlit_s("attribute"), attr_decl(l, c), prohibited(l) ensures #[trigger] attrs_ok(a, s.push(l), parent, c)
{ assert(s.push(l).drop_last() =~= s); }

/// the declarations read so far from the children k0 of n, when `left` are still to be read: all in front, or one that is no attribute is left
#[verifier::opaque]
pub open spec fn attr_prog<'a, 'i>(a: Seq<AstAttribute>, k0: Seq<RN<'a, 'i>>, left: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, parent: Name, c: Context) -> bool {
    kids_of(left, n) && left.len() <= k0.len() && ((left =~= k0.skip(k0.len() - left.len()) && attrs_ok(a, k0.take(k0.len() - left.len()), parent, c)) || (left.len() > 0 && nm(left[0]) != xlit_s("attribute")))
}
pub broadcast proof fn lemma_prog0<'a, 'i>(k0: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, parent: Name, c: Context) requires kids_of(k0, n) ensures #[trigger] attr_prog(Seq::empty(), k0, k0, n, parent, c)
{ reveal(attr_prog); assert(k0.take(0) =~= Seq::<RN<'a, 'i>>::empty()); assert(k0.skip(0) =~= k0); }
pub broadcast proof fn lemma_prog_push<'a, 'i>(a: Seq<AstAttribute>, k0: Seq<RN<'a, 'i>>, left: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, parent: Name, c: Context, x: AstAttribute)
    requires attr_prog(a, k0, left, n, parent, c), hasq(left, xlit_s("attribute")), ({ let l = left[fq(left, xlit_s("attribute"))]; attr_decl(l, c) && !prohibited(l) && attr_ok(x, l, parent, c) })
    ensures #[trigger] attr_prog(a.push(x), k0, rm(left, xlit_s("attribute")), n, parent, c)
{ lemma_prog_step(a, k0, left, n, parent, c); let d = k0.len() - left.len(); if left =~= k0.skip(d) && attrs_ok(a, k0.take(d), parent, c) && fq(left, xlit_s("attribute")) == 0 { lemma_attrs_push(a, k0.take(d), parent, c, k0[d], x); } reveal(attr_prog); }
pub broadcast proof fn lemma_prog_skip<'a, 'i>(a: Seq<AstAttribute>, k0: Seq<RN<'a, 'i>>, left: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, parent: Name, c: Context)
    requires attr_prog(a, k0, left, n, parent, c), hasq(left, xlit_s("attribute")), ({ let l = left[fq(left, xlit_s("attribute"))]; attr_decl(l, c) && prohibited(l) })
    ensures #[trigger] attr_prog(a, k0, rm(left, xlit_s("attribute")), n, parent, c)
{ lemma_prog_step(a, k0, left, n, parent, c); let d = k0.len() - left.len(); if left =~= k0.skip(d) && attrs_ok(a, k0.take(d), parent, c) && fq(left, xlit_s("attribute")) == 0 { lemma_attrs_skip(a, k0.take(d), parent, c, k0[d]); } reveal(attr_prog); }
proof fn lemma_prog_step<'a, 'i>(a: Seq<AstAttribute>, k0: Seq<RN<'a, 'i>>, left: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, parent: Name, c: Context)
    requires attr_prog(a, k0, left, n, parent, c), hasq(left, xlit_s("attribute"))
    ensures ({ let i = fq(left, xlit_s("attribute")); let r = rm(left, xlit_s("attribute")); let d = k0.len() - left.len(); kids_of(r, n) && r.len() == left.len() - 1 && left.len() <= k0.len() && nm(left[i]) == xlit_s("attribute")
      && (if i == 0 { left =~= k0.skip(d) && attrs_ok(a, k0.take(d), parent, c) && r =~= k0.skip(d + 1) && k0.take(d + 1) =~= k0.take(d).push(k0[d]) && left[i] == k0[d] } else { r.len() > 0 && nm(r[0]) != xlit_s("attribute") }) })
{ reveal(attr_prog); broadcast use {lemma_fq, lemma_kids_rm, lemma_first_q}; let i = fq(left, xlit_s("attribute")); if i > 0 { assert(nm(left[0]) != xlit_s("attribute")); } }
pub broadcast proof fn lemma_prog_done<'a, 'i>(a: Seq<AstAttribute>, k0: Seq<RN<'a, 'i>>, left: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, parent: Name, c: Context)
    requires #[trigger] attr_prog(a, k0, left, n, parent, c), left.len() == 0 ensures attrs_ok(a, k0, parent, c)
{ reveal(attr_prog); assert(k0.take(k0.len() as int) =~= k0); }
pub broadcast proof fn mono_prog<'a, 'i>(x: Seq<AstAttribute>, k0: Seq<RN<'a, 'i>>, left: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, p: Name, a: Context, b: Context)
    requires #[trigger] attr_prog(x, k0, left, n, p, a), #[trigger] cext(a, b) ensures attr_prog(x, k0, left, n, p, b)
{ reveal(attr_prog); broadcast use mono_attrs; }
pub broadcast proof fn lemma_prog_kids<'a, 'i>(a: Seq<AstAttribute>, k0: Seq<RN<'a, 'i>>, left: Seq<RN<'a, 'i>>, n: RN<'a, 'i>, parent: Name, c: Context)
    requires #[trigger] attr_prog(a, k0, left, n, parent, c) ensures kids_of(left, n)
{ reveal(attr_prog); }

// ---- elements, groups and complex types ------------------------------------------------------------------------------
pub open spec fn uno(s: Seq<Leaf>, b: bool) -> bool { fl_uno() ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_unordered == b }
pub open spec fn virt(c: Context, parent: Name, k: Name) -> bool { (fl_dep() ==> dep(c, parent, k)) && c.roots@.dom().contains(k) }
/// only occurrence attributes
pub open spec fn occ_only(n: RN, max: bool) -> bool { fl_strict() ==> forall|a: XStr| (#[trigger] n.attribute_s(&a)) is Some ==> a == xlit_s("minOccurs") || (max && a == xlit_s("maxOccurs")) }
/// the leaves of a group: one per particle, in order
pub open spec fn lv_ok(ls: Seq<Leaf>, g: Seq<RN>, h: int, parent: Name, c: Context, seq: bool) -> bool decreases h, 0int {
    ls.len() == g.len() && forall|i: int| #![trigger ls[i]] #![trigger g[i]] 0 <= i < g.len() ==> 0 <= g[i].height_s() < h && leaf_ok(ls[i], g[i], parent, c, seq)
}
pub open spec fn group_ok(ls: Seq<Leaf>, n: RN, parent: Name, c: Context, seq: bool) -> bool { lv_ok(ls, grp(n), n.height_s(), parent, c, seq) }
/// the definition of a nested sequence
pub open spec fn seq_root(r: Root, n: RN, parent: Name, c: Context) -> bool decreases n.height_s(), 1int, 0int {
    r is Element && r->Element_0.is_virtual && r->Element_0.attributes@.len() == 0 && r->Element_0.content is Some && r->Element_0.content->0 is Leaves && uno(r->Element_0.content->0->Leaves_0@, nm(n) == xlit_s("all"))
    && lv_ok(r->Element_0.content->0->Leaves_0@, grp(n), n.height_s(), parent, c, true)
}
pub open spec fn choice_root(r: Root, n: RN, parent: Name, c: Context, v: bool) -> bool decreases n.height_s(), 1int {
    r is Choice && r->Choice_0.is_virtual == v && uno(r->Choice_0.variants@, false) && lv_ok(r->Choice_0.variants@, grp(n), n.height_s(), parent, c, false)
}
pub open spec fn leaf_ok(l: Leaf, n: RN, parent: Name, c: Context, seq: bool) -> bool decreases n.height_s(), 3int {
    let t = l.definition.content; let k = t->Named_0;
    if nm(n) == xlit_s("element") { !l.is_virtual && min_ok(l, n) && max_ok(l, n) && el_ok(l, n, parent, c) }
    else if nm(n) == xlit_s("choice") && seq { l.is_virtual && min_ok(l, n) && max_ok(l, n) && occ_only(n, true) && t is Named && virt(c, parent, k) && choice_root(c.roots@[k], n, parent, c, true) }
    else if nm(n) == xlit_s("sequence") { l.is_virtual && min_ok(l, n) && (if seq { (fl_occ() ==> l.max_occurs == MaxOccurs::Number(1)) && occ_only(n, false) } else { max_ok(l, n) && occ_only(n, true) }) && t is Named && virt(c, parent, k) && seq_root(c.roots@[k], n, parent, c) }
    else { false }
}
pub open spec fn el_ok(l: Leaf, n: RN, parent: Name, c: Context) -> bool decreases n.height_s(), 2int {
    let t = l.definition.content; let k = t->Named_0;
    if at(n, xlit_s("ref")) is Some {
        t is Named && l.name == k && tref_ok(t, at(n, xlit_s("ref"))->0, c) && (fl_dep() ==> dep(c, parent, k))
        && (fl_strict() ==> forall|a: XStr| (#[trigger] n.attribute_s(&a)) is Some ==> a == xlit_s("minOccurs") || a == xlit_s("maxOccurs") || a == xlit_s("ref"))
    } else {
        at(n, xlit_s("name")) is Some && l.name == (Name { name: at(n, xlit_s("name"))->0, namespace: node_ns(c, false) })
        && (if at(n, xlit_s("type")) is Some { typed_ok(t, at(n, xlit_s("type"))->0, n, parent, c) }
            else if !hasq(child_elems(n), xlit_s("simpleType")) && !hasq(child_elems(n), xlit_s("complexType")) { t == LeafContent::Literal(LiteralType::Any) }
            else { t is Named && virt(c, parent, k) && eroot_ok(c.roots@[k], n, k, c) })
        && (fl_strict() ==> forall|a: XStr| (#[trigger] n.attribute_s(&a)) is Some ==> a == xlit_s("minOccurs") || a == xlit_s("maxOccurs") || a == xlit_s("name") || a == xlit_s("default") || a == xlit_s("form") || a == xlit_s("type") || (a == xlit_s("fixed") && at(n, xlit_s("type")) is Some && !(t is Named)))
    }
}
/// the definition of an element: the type it names, or the one inside it
pub open spec fn eroot_ok(r: Root, n: RN, parent: Name, c: Context) -> bool decreases n.height_s(), 1int {
    let k = rm(xk(n), xlit_s("annotation"));
    if at(n, xlit_s("type")) is Some { k.len() == 0 && r is Leaf && typed_ok(r->Leaf_0.content, at(n, xlit_s("type"))->0, n, parent, c) }
    else { k.len() == 1 && low(k[0], n) && ((nm(k[0]) == xlit_s("complexType") && ct_attrs(k[0]) && complex_ok(r, k[0], parent, c)) || (nm(k[0]) == xlit_s("simpleType") && (fl_strict() ==> no_attrs(k[0])) && simple_ok(r, k[0], c))) }
}
pub open spec fn ct_attrs(n: RN) -> bool { fl_strict() ==> forall|a: XStr| (#[trigger] n.attribute_s(&a)) is Some ==> a == xlit_s("mixed") }
pub open spec fn complex_ok(r: Root, n: RN, parent: Name, c: Context) -> bool decreases n.height_s(), 0int {
    let k = rm(xk(n), xlit_s("annotation")); let d = r->Element_0;
    (fl_strict() ==> at(n, xlit_s("mixed")) != Some(xlit_s("true"))) && r is Element && !d.is_virtual && (
        if hasq(k, xlit_s("simpleContent")) { k.len() == 1 && sc_ok(d, k[0], parent, c) }
        else if hasq(k, xlit_s("complexContent")) { k.len() == 1 && low(k[0], n) && cc_ok(d, k[0], parent, c) }
        else if gname(k) is None { d.content is None && attrs_ok(d.attributes@, k, parent, c) }
        else { let g = k[fq(k, gname(k)->0)]; low(g, n) && cont_ok(d.content, g, parent, c) && attrs_ok(d.attributes@, rm(k, gname(k)->0), parent, c) })
}
/// the group of a complex type
pub open spec fn gname(k: Seq<RN>) -> Option<XStr> { if hasq(k, xlit_s("sequence")) { Some(xlit_s("sequence")) } else if hasq(k, xlit_s("all")) { Some(xlit_s("all")) } else if hasq(k, xlit_s("choice")) { Some(xlit_s("choice")) } else { None } }
pub open spec fn cont_ok(ct: Option<ElementContent>, g: RN, parent: Name, c: Context) -> bool decreases g.height_s(), 3int {
    if nm(g) == xlit_s("choice") {
        let t = ct->0->Leaf_1.content;
        (fl_strict() ==> no_attrs(g)) && ct is Some && ct->0 is Leaf && t is Named && virt(c, parent, t->Named_0) && choice_root(c.roots@[t->Named_0], g, parent, c, false)
    } else { cgroup_ok(ct, g, parent, c) }
}
/// the sequence or all group of a complex type
pub open spec fn cgroup_ok(ct: Option<ElementContent>, g: RN, parent: Name, c: Context) -> bool decreases g.height_s(), 2int {
    let ls = ct->0->Leaves_0@;
    occ_only(g, true) && (fl_occ() ==> min_of(g) is Some && max_of(g) is Some) && ct is Some && ct->0 is Leaves
    && (if fl_occ() { if is_vec_s(max_of(g)->0) || min_of(g)->0 != MinOccurs(1) { cg_own(ls, g, parent, c) } else { cg_direct(ls, g, parent, c) } } else { cg_own(ls, g, parent, c) || cg_direct(ls, g, parent, c) })
}
/// a repeated or optional group has a definition of its own
pub open spec fn cg_own(ls: Seq<Leaf>, g: RN, parent: Name, c: Context) -> bool decreases g.height_s(), 1int, 1int {
    ls.len() == 1 && ls[0].is_virtual && (fl_uno() ==> !ls[0].is_unordered) && min_ok(ls[0], g) && max_ok(ls[0], g) && ls[0].definition.content is Named && virt(c, parent, ls[0].definition.content->Named_0) && seq_root(c.roots@[ls[0].definition.content->Named_0], g, parent, c)
}
pub open spec fn cg_direct(ls: Seq<Leaf>, g: RN, parent: Name, c: Context) -> bool decreases g.height_s(), 1int, 1int { uno(ls, nm(g) == xlit_s("all")) && lv_ok(ls, grp(g), g.height_s(), parent, c, true) }
pub open spec fn sc_ok(d: ElementDefinition, n: RN, parent: Name, c: Context) -> bool {
    let k = xk(n); let e = k[0]; let t = d.content->0->Leaf_1.content;
    (fl_strict() ==> no_attrs(n)) && k.len() == 1 && nm(e) == xlit_s("extension") && at(e, xlit_s("base")) is Some && d.content is Some && d.content->0 is Leaf && tref_ok(t, at(e, xlit_s("base"))->0, c) && (fl_dep() && t is Named ==> dep(c, parent, t->Named_0)) && attrs_ok(d.attributes@, xk(e), parent, c)
}
/// an extension: the base, and the additional group if there is one
pub open spec fn cc_ok(d: ElementDefinition, n: RN, parent: Name, c: Context) -> bool decreases n.height_s(), 3int {
    let k = xk(n); let e = k[0]; let ek = xk(e); let s = ek[fq(ek, xlit_s("sequence"))]; let ls = d.content->0->Leaves_0@;
    (fl_strict() ==> no_attrs(n)) && k.len() == 1 && nm(e) == xlit_s("extension") && at(e, xlit_s("base")) is Some && d.content is Some && (
        if hasq(ek, xlit_s("sequence")) {
            low(e, n) && low(s, e) && d.content->0 is Leaves && ls.len() == 2 && base_leaf(ls[0], at(e, xlit_s("base"))->0, parent, c) && ls[1].is_virtual && (fl_uno() ==> !ls[1].is_unordered) && min_ok(ls[1], s) && (fl_occ() ==> ls[1].max_occurs == MaxOccurs::Number(1)) && occ_only(s, false)
            && ls[1].definition.content is Named && virt(c, parent, ls[1].definition.content->Named_0) && seq_root(c.roots@[ls[1].definition.content->Named_0], s, parent, c) && attrs_ok(d.attributes@, rm(ek, xlit_s("sequence")), parent, c)
        } else { d.content->0 is Leaf && base_ref(d.content->0->Leaf_1.content, at(e, xlit_s("base"))->0, parent, c) && attrs_ok(d.attributes@, ek, parent, c) })
}
pub open spec fn base_ref(t: LeafContent, s: XStr, parent: Name, c: Context) -> bool { t is Named && tref_ok(t, s, c) && (fl_dep() ==> dep(c, parent, t->Named_0)) }
pub open spec fn base_leaf(l: Leaf, s: XStr, parent: Name, c: Context) -> bool { l.is_virtual && (fl_uno() ==> !l.is_unordered) && (fl_occ() ==> l.min_occurs == MinOccurs(1) && l.max_occurs == MaxOccurs::Number(1)) && base_ref(l.definition.content, s, parent, c) }
pub open spec fn root_ok(r: Root, n: RN, parent: Name, c: Context) -> bool {
    if nm(n) == xlit_s("element") { eroot_ok(r, n, parent, c) } else if nm(n) == xlit_s("complexType") { complex_ok(r, n, parent, c) } else { nm(n) == xlit_s("simpleType") && simple_ok(r, n, c) }
}
/// the attributes a top-level component may have besides those already read
pub open spec fn root_attrs(n: RN, read: ISet<XStr>, r: Root) -> bool {
    fl_strict() ==> forall|a: XStr| (#[trigger] n.attribute_s(&a)) is Some ==> read.contains(a) || (nm(n) == xlit_s("element") && (a == xlit_s("type") || (a == xlit_s("fixed") && at(n, xlit_s("type")) is Some && !(r->Leaf_0.content is Named)))) || (nm(n) == xlit_s("complexType") && a == xlit_s("mixed"))
}

// ---- what holds in a context holds in every larger one ---------------------------------------------------------------
pub broadcast proof fn mono_tref(t: LeafContent, s: XStr, a: Context, b: Context) requires #[trigger] tref_ok(t, s, a), #[trigger] cext(a, b) ensures tref_ok(t, s, b) { reveal(cext); }
pub broadcast proof fn mono_typed(t: LeafContent, s: XStr, n: RN, p: Name, a: Context, b: Context) requires #[trigger] typed_ok(t, s, n, p, a), #[trigger] cext(a, b) ensures typed_ok(t, s, n, p, b) { broadcast use {mono_tref, lemma_cext_dep, lemma_cext_file}; }
pub broadcast proof fn mono_simple(r: Root, n: RN, a: Context, b: Context) requires #[trigger] simple_ok(r, n, a), #[trigger] cext(a, b) ensures simple_ok(r, n, b) { broadcast use lemma_cext_file; }
pub broadcast proof fn mono_decl(n: RN, a: Context, b: Context) requires #[trigger] attr_decl(n, a), #[trigger] cext(a, b) ensures attr_decl(n, b) { broadcast use lemma_cext_file; }
pub broadcast proof fn mono_attr(x: AstAttribute, n: RN, p: Name, a: Context, b: Context) requires #[trigger] attr_ok(x, n, p, a), #[trigger] cext(a, b) ensures attr_ok(x, n, p, b) { broadcast use {lemma_cext_file, mono_typed, mono_simple, lemma_cext_dep, lemma_cext_root}; }
pub broadcast proof fn mono_attrs(x: Seq<AstAttribute>, s: Seq<RN>, p: Name, a: Context, b: Context) requires #[trigger] attrs_ok(x, s, p, a), #[trigger] cext(a, b) ensures attrs_ok(x, s, p, b) decreases s.len()
{ broadcast use {mono_attr, mono_decl}; if s.len() > 0 { if prohibited(s.last()) { mono_attrs(x, s.drop_last(), p, a, b); } else { mono_attrs(x.drop_last(), s.drop_last(), p, a, b); } } }
pub broadcast proof fn mono_lv(ls: Seq<Leaf>, g: Seq<RN>, h: int, p: Name, a: Context, b: Context, q: bool) requires #[trigger] lv_ok(ls, g, h, p, a, q), #[trigger] cext(a, b) ensures lv_ok(ls, g, h, p, b, q) decreases h, 0int
{ assert forall|i: int| #![trigger ls[i]] #![trigger g[i]] 0 <= i < g.len() implies 0 <= g[i].height_s() < h && leaf_ok(ls[i], g[i], p, b, q) by { mono_leaf(ls[i], g[i], p, a, b, q); } }
pub broadcast proof fn mono_seq_root(r: Root, n: RN, p: Name, a: Context, b: Context) requires #[trigger] seq_root(r, n, p, a), #[trigger] cext(a, b) ensures seq_root(r, n, p, b) decreases n.height_s(), 1int
{ mono_lv(r->Element_0.content->0->Leaves_0@, grp(n), n.height_s(), p, a, b, true); }
pub broadcast proof fn mono_choice_root(r: Root, n: RN, p: Name, a: Context, b: Context, v: bool) requires #[trigger] choice_root(r, n, p, a, v), #[trigger] cext(a, b) ensures choice_root(r, n, p, b, v) decreases n.height_s(), 1int
{ mono_lv(r->Choice_0.variants@, grp(n), n.height_s(), p, a, b, false); }
pub broadcast proof fn mono_leaf(l: Leaf, n: RN, p: Name, a: Context, b: Context, q: bool) requires #[trigger] leaf_ok(l, n, p, a, q), #[trigger] cext(a, b) ensures leaf_ok(l, n, p, b, q) decreases n.height_s(), 3int
{
    broadcast use {lemma_cext_file, lemma_cext_dep, lemma_cext_root}; let k = l.definition.content->Named_0;
    if nm(n) == xlit_s("element") { mono_el(l, n, p, a, b); } else if nm(n) == xlit_s("choice") && q { mono_choice_root(a.roots@[k], n, p, a, b, true); } else { mono_seq_root(a.roots@[k], n, p, a, b); }
}
pub broadcast proof fn mono_el(l: Leaf, n: RN, p: Name, a: Context, b: Context) requires #[trigger] el_ok(l, n, p, a), #[trigger] cext(a, b) ensures el_ok(l, n, p, b) decreases n.height_s(), 2int
{
    broadcast use {lemma_cext_file, lemma_cext_dep, lemma_cext_root, mono_tref, mono_typed}; let k = l.definition.content->Named_0;
    if at(n, xlit_s("ref")) is None && at(n, xlit_s("type")) is None && (hasq(child_elems(n), xlit_s("simpleType")) || hasq(child_elems(n), xlit_s("complexType"))) { mono_eroot(a.roots@[k], n, k, a, b); }
}
pub broadcast proof fn mono_eroot(r: Root, n: RN, p: Name, a: Context, b: Context) requires #[trigger] eroot_ok(r, n, p, a), #[trigger] cext(a, b) ensures eroot_ok(r, n, p, b) decreases n.height_s(), 1int
{ broadcast use {mono_typed, mono_simple}; let k = rm(xk(n), xlit_s("annotation")); if at(n, xlit_s("type")) is None && nm(k[0]) == xlit_s("complexType") && complex_ok(r, k[0], p, a) { mono_complex(r, k[0], p, a, b); } }
pub broadcast proof fn mono_complex(r: Root, n: RN, p: Name, a: Context, b: Context) requires #[trigger] complex_ok(r, n, p, a), #[trigger] cext(a, b) ensures complex_ok(r, n, p, b) decreases n.height_s(), 0int
{
    broadcast use {lemma_cext_file, lemma_cext_dep, lemma_cext_root, mono_tref, mono_attrs}; let k = rm(xk(n), xlit_s("annotation")); let d = r->Element_0;
    if hasq(k, xlit_s("simpleContent")) { }
    else if hasq(k, xlit_s("complexContent")) { mono_cc(d, k[0], p, a, b); }
    else if gname(k) is Some { mono_cont(d.content, k[fq(k, gname(k)->0)], p, a, b); }
}
pub broadcast proof fn mono_cont(d: Option<ElementContent>, g: RN, p: Name, a: Context, b: Context) requires #[trigger] cont_ok(d, g, p, a), #[trigger] cext(a, b) ensures cont_ok(d, g, p, b) decreases g.height_s(), 3int
{
    broadcast use {lemma_cext_file, lemma_cext_dep, lemma_cext_root};
    if nm(g) == xlit_s("choice") { mono_choice_root(a.roots@[d->0->Leaf_1.content->Named_0], g, p, a, b, false); } else { mono_cgroup(d, g, p, a, b); }
}
pub broadcast proof fn mono_cgroup(d: Option<ElementContent>, g: RN, p: Name, a: Context, b: Context) requires #[trigger] cgroup_ok(d, g, p, a), #[trigger] cext(a, b) ensures cgroup_ok(d, g, p, b) decreases g.height_s(), 2int
{
    broadcast use {lemma_cext_file, lemma_cext_dep, lemma_cext_root}; let ls = d->0->Leaves_0@;
    if cg_own(ls, g, p, a) { mono_seq_root(a.roots@[ls[0].definition.content->Named_0], g, p, a, b); assert(cg_own(ls, g, p, b)); } if cg_direct(ls, g, p, a) { mono_lv(ls, grp(g), g.height_s(), p, a, b, true); assert(cg_direct(ls, g, p, b)); }
}
pub broadcast proof fn mono_cc(d: ElementDefinition, n: RN, p: Name, a: Context, b: Context) requires #[trigger] cc_ok(d, n, p, a), #[trigger] cext(a, b) ensures cc_ok(d, n, p, b) decreases n.height_s(), 3int
{
    broadcast use {lemma_cext_file, lemma_cext_dep, lemma_cext_root, mono_tref, mono_attrs}; let ek = xk(xk(n)[0]); let ls = d.content->0->Leaves_0@;
    if hasq(ek, xlit_s("sequence")) { mono_seq_root(a.roots@[ls[1].definition.content->Named_0], ek[fq(ek, xlit_s("sequence"))], p, a, b); }
}
// ---- a leaf keeps its meaning when a group is renamed or its order flag is set ---------------------------------------
pub open spec fn same_leaf(a: Leaf, b: Leaf) -> bool { a.definition == b.definition && a.is_virtual == b.is_virtual && a.min_occurs == b.min_occurs && a.max_occurs == b.max_occurs && a.name.namespace == b.name.namespace && (!a.is_virtual ==> a.name == b.name) }
pub open spec fn same_leaves(a: Seq<Leaf>, b: Seq<Leaf>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> same_leaf(a[i], b[i]) }
pub broadcast proof fn lemma_same(x: Seq<Leaf>, y: Seq<Leaf>, g: Seq<RN>, h: int, p: Name, c: Context, q: bool) requires #[trigger] lv_ok(x, g, h, p, c, q), #[trigger] same_leaves(x, y) ensures lv_ok(y, g, h, p, c, q)
{ assert forall|i: int| #![trigger y[i]] #![trigger g[i]] 0 <= i < g.len() implies 0 <= g[i].height_s() < h && leaf_ok(y[i], g[i], p, c, q) by { assert(same_leaf(x[i], y[i])); assert(leaf_ok(x[i], g[i], p, c, q)); } }
pub open spec fn total(s: Seq<&Name>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().name@.len() } }
pub open spec fn distinct_virtual(s: Seq<Leaf>) -> bool { fl_name() ==> forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && (#[trigger] s[i]).is_virtual ==> s[i].name.name.to_snake_case_s() != (#[trigger] s[j]).name.name.to_snake_case_s() }

pub broadcast proof fn lemma_total<'a>(s: Seq<&'a Name>, p: int, q: int) requires 0 <= p, q == p + 1, q <= s.len() ensures #![trigger s.take(p), s.take(q)] total(s.take(q)) == total(s.take(p)) + s[p].name@.len()
{ assert(s.take(q).drop_last() =~= s.take(p)); }
pub broadcast proof fn lemma_total23<'a>(s: Seq<&'a Name>) ensures s.len() == 2 ==> #[trigger] total(s) == s[0].name@.len() + s[1].name@.len(), s.len() == 3 ==> total(s) == s[0].name@.len() + s[1].name@.len() + s[2].name@.len()
{ reveal_with_fuel(total, 4); }
pub broadcast proof fn lemma_wn(n: RN) requires #[trigger] well_named(n), at(n, xlit_s("base")) is Some ensures local(at(n, xlit_s("base"))->0)@.len() > 0 { reveal(well_named); }
/// the prefixes bound by a list of namespace declarations
pub open spec fn doc_ns<'a>(m: Map<&'a XStr, &'a XStr>, s: Seq<roxmltree::Namespace<'a>>) -> bool {
    (forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).p is Some ==> m.dom().contains(s[i].p->0) && m[s[i].p->0] == s[i].u) && (forall|k: &'a XStr| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).p == Some(k))
}
/// the definition a name leads to, through aliases
pub open spec fn chase(e: Map<Name, Root>, name: Name, k: nat) -> Option<Root> decreases k {
    if k == 0 { if e.dom().contains(name) { Some(e[name]) } else { None } }
    else { match chase(e, name, (k - 1) as nat) { Some(Root::Leaf(LeafDefinition { content: LeafContent::Named(n), .. })) => if e.dom().contains(n) { Some(e[n]) } else { None }, o => o } }
}
pub open spec fn alias(r: Option<Root>) -> bool { r is Some && r->0 is Leaf && r->0->Leaf_0.content is Named }
pub open spec fn resolved(e: Map<Name, Root>, name: Name, r: Option<Root>) -> bool { !alias(r) && exists|k: nat| #[trigger] chase(e, name, k) == r }
pub open spec fn text_content(c: LeafContent, e: Map<Name, Root>, r: bool) -> bool { match c { LeafContent::Named(n) => exists|o: Option<Root>| #[trigger] resolved(e, n, o) && r == (o is Some && o->0 is Leaf), _ => r } }
pub open spec fn orf(r: Option<&Root>) -> Option<Root> { match r { Some(x) => Some(*x), None => None } }
