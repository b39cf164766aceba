#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mechanism], observe_at=list(observe), hook_needed=hook)))

AST='xsd-internal/src/ast/'
XS='xsd-internal/src/xsd/'
PA='xsd-internal/src/xsd/parse/'

p('C01','Round trip: serialising a value and parsing it back yields an equal value',
  "For every schema made of the supported constructs and every value of a type generated from it that the schema permits, serialising the value succeeds and parsing the resulting document as the same type yields an equal value. "
  "This covers nested and repeated elements, optional parts, sequences, choices, extensions, attributes, enumerations, fixed values and simple types, in every namespace configuration; it excludes only values with no XML counterpart (a present but empty optional list or group, text XML cannot carry or normalises, not-a-number), values whose parts no document keeps apart (consecutive entries of a repeated group that read as one), and schemas in which two names become the same Rust identifier.",
  ['programs','inputs'],'for all supported schemas, for all values of the generated types',
  "the tests round-trip one hand-written value for each of 50 schemas; combinations of constructs and other values are never tried",
  [AST+'leaf.rs',AST+'root.rs',AST+'element_definition.rs',AST+'leaf_content.rs',AST+'attribute.rs',XS+'schema.rs','xsd/src/lib.rs','xsd/src/decode.rs'],
  [('generated to_xml_writer / from_xml_node pairs','Leaf/Root/ElementDefinition/Attribute::{to_xml_impl,from_xml_impl}')],
  observe=['T::to_xml, T::from_xml of every generated type T'])
p('C02','Serialised documents have exactly the shape the schema prescribes',
  "For every supported schema and every permitted value of a generated type, the serialised document is well-formed and contains exactly the elements, attributes and text the schema prescribes for that value: element names in the right namespace, in schema order, one element per list entry, nothing for absent optional parts, attributes on the element that declares them, and every namespace prefix declared where it is used.",
  ['programs','inputs'],'for all supported schemas, for all values of the generated types',
  "tests compare the output for one value per schema with a fixture",
  [AST+'leaf.rs',AST+'root.rs',AST+'element_definition.rs',AST+'element_content.rs',AST+'leaf_content.rs',AST+'attribute.rs',XS+'schema.rs',XS+'context.rs','xsd/src/lib.rs'],
  [('to_xml_impl code generation','xsd-internal/src/ast/*.rs'),('Context start/end element writing','xsd/src/lib.rs')],
  observe=['T::to_xml'])
p('C03','Parsing a schema-valid document yields exactly the data it contains',
  "For every supported schema, parsing any document that conforms to it (with literal text in the lexical form of the Rust type it maps to) succeeds, and every field of the result holds exactly the data of the corresponding element or attribute: repeated elements in document order, optional parts present exactly when they occur, and the alternative of a choice that occurs.",
  ['programs','inputs'],'for all supported schemas, for all schema-valid documents',
  "tests parse one document per schema",
  [AST+'leaf.rs',AST+'root.rs',AST+'element_content.rs',AST+'leaf_content.rs',AST+'attribute.rs',AST+'literal_type.rs',XS+'schema.rs','xsd/src/decode.rs'],
  [('from_xml_impl / lookahead_impl code generation','xsd-internal/src/ast/*.rs'),('child cursor','xsd/src/decode.rs Node')],
  observe=['T::from_xml'])
p('C04','Parsing rejects invalid documents with the right error and never panics',
  "For every supported schema and every XML document, parsing never panics, and it returns an error and no value when the root element is another one, a required (non-repeated) element or a required attribute is missing, literal text does not parse, a value is outside its enumeration, the text of an element or attribute with a fixed value differs, or no alternative of a required choice is present; the error says which of these happened and names the element, attribute or value concerned.",
  ['programs','inputs'],'for all supported schemas, for all XML documents',
  "no test parses an invalid document",
  [AST+'leaf.rs',AST+'root.rs',AST+'leaf_content.rs',AST+'attribute.rs',AST+'name.rs','xsd/src/decode.rs'],
  [('try_next_child/try_child/try_attribute/text and the generated error returns','xsd/src/decode.rs, *_impl generators')],
  observe=['T::from_xml'])
p('C05','Child reading consumes in document order, at most once, only on exact match',
  "While the children of an XML element are read through the runtime, every child element is handed out at most once, and only to a request with its local name and namespace. "
  "An in-order request succeeds exactly when the first child not yet handed out matches; an any-order request hands out the earliest match among the children not yet handed out; peeking and failed requests consume nothing, and the order of the remaining children never changes.",
  ['inputs','histories'],'for all elements and all finite sequences of peek, in-order and any-order requests',
  "tests only run the request sequences of the generated parsers on one document each; mixed histories of peeks, in-order and any-order reads are never exercised",
  ['xsd/src/decode.rs'],
  [('Node::peek_child','xsd/src/decode.rs'),('Node::next_child','xsd/src/decode.rs'),('Node::child','xsd/src/decode.rs')],
  state=[('next','child fetched by a peek or failed in-order request','Children.next'),('peeked','children skipped by any-order requests','Children.peeked'),('children','children not fetched yet','Children.children')],
  observe=['Node::{peek_child,next_child,try_next_child,child,try_child,attribute,try_attribute,text}, Document::{child,try_child}'])
p('C06','A start tag carries exactly the attributes and namespaces set for it',
  "The start tag written for an element has the element's name and exactly the attributes and namespace declarations set on its context since the context was created or last written, attributes in the order set, and each start tag is matched by one end tag. "
  "A context wrapped around an enclosing one writes no tags of its own, and everything set on it is set on the enclosing context.",
  ['inputs','histories'],'for all sequences of attribute, namespace, wrap and write calls',
  "tests reach the context only through the generated serialisers, with at most two attributes and one level of wrapping",
  ['xsd/src/lib.rs'],
  [('Context::{wrap,set_attr,set_ns,set_default_ns,write_start_element,write_end_element}','xsd/src/lib.rs')],
  observe=['XmlEvents received by the EventWriter'])
p('C07','minOccurs/maxOccurs decide whether a field is plain, optional or a list',
  "For every element and group of a schema, the declared minimum and maximum number of occurrences (default 1 and 1) decide the generated field exactly: optional if and only if the minimum is 0, a list if and only if the maximum is greater than 1 or unbounded, both combined when both hold. "
  "An occurrence value that is not a number (or `unbounded` for the maximum) makes schema parsing fail.",
  ['programs'],'for all occurrence values on all elements and groups',
  "tests use only a few of the values 0, 1, 2 and unbounded",
  [PA+'element.rs',AST+'leaf.rs',PA+'sequence.rs',PA+'choice.rs',PA+'complex_type.rs',PA+'complex_content.rs'],
  [('parse_min_occurs / parse_max_occurs','xsd-internal/src/xsd/parse/element.rs'),('Leaf::is_optional / is_vec, MaxOccurs::is_vec','xsd-internal/src/ast/leaf.rs')],
  observe=['field types of the generated structs'])
p('C08','Built-in XSD types map to their Rust types; other built-ins are rejected',
  "Every reference to a supported built-in type generates the Rust type documented for it (string-like and date/time types: string; boolean: bool; integer and long: i64; nonNegativeInteger and positiveInteger: u64; int: i32; decimal: decimal; float: f32), independent of where the reference occurs, and a reference to any other built-in name makes schema parsing fail with an error naming that type. "
  "A parse failure of such a value at run time names the XSD type, or the built-in type it is treated as (long for integer, nonNegativeInteger for positiveInteger, any for anyType).",
  ['programs'],'for all type names, at every place a type can be referenced',
  "tests use seven of the sixteen built-ins and no unsupported one",
  [XS+'context.rs',AST+'literal_type.rs'],
  [('literal_from_str','xsd-internal/src/xsd/context.rs'),('LiteralType::{to_impl,xsd_name,from_str_impl}','xsd-internal/src/ast/literal_type.rs')],
  observe=['generated field types, SchemaError'])
p('C09','Each enumeration value has its own variant; conversion is lossless and closed',
  "For every list of distinct enumeration values of a simple type, whatever characters they contain, each value gets exactly one variant of its own: converting a listed string to the enum and back returns the same string, converting a variant to a string and back returns the same variant, and every string that is not listed is rejected.",
  ['programs','inputs'],'for all lists of distinct enumeration values, for all strings',
  "tests use three enumerations with plain identifiers; colliding, empty, symbolic or numeric values are never tried",
  [AST+'root.rs',PA+'simple_type.rs'],
  [('escape_enum_names','xsd-internal/src/ast/root.rs'),('generated FromStr / as_str','Root::to_declaration')],
  observe=['FromStr, as_str and Display of generated enums'])
p('C10','Namespace URIs and prefixes correspond one to one, stably',
  "During the parsing of a schema with all its includes and imports, every namespace URI is assigned one identity and one prefix when it is first seen; asking again for the same URI returns the same identity, different URIs never share an identity or a prefix, and the identity always leads back to its URI and prefix.",
  ['histories','inputs'],'for all sequences of namespace registrations',
  "tests register at most three namespaces",
  [AST+'namespaces.rs',XS+'context.rs'],
  [('Namespaces::get_or_insert','xsd-internal/src/ast/namespaces.rs')],
  state=[('by_namespace/by_id','the two directions of the registry','Namespaces')],
  observe=['Namespaces API; namespace declarations in generated code'])
p('C11','Type and element references resolve through the prefix bound in the schema',
  "A reference to a type or element resolves by the namespace its prefix is bound to in the schema document: to the built-in type if that is the XML Schema namespace, and otherwise to exactly the local name in that namespace. "
  "An unprefixed reference resolves by the default namespace (a built-in if that is the XML Schema namespace), and a reference with an unbound prefix makes schema parsing fail with an error naming the prefix.",
  ['programs'],'for all reference strings and namespace bindings',
  "tests bind only the prefixes xs, main, base and other in ordinary ways",
  [XS+'context.rs'],
  [('Context::get_type_name','xsd-internal/src/xsd/context.rs'),('Context::new','xsd-internal/src/xsd/context.rs')],
  observe=['generated code / SchemaError of Schema::parse'])
p('C12','Unsupported schema constructs are reported, never silently ignored',
  "Parsing a schema fails with an error naming the construct if an element, attribute, sequence, all, choice, complexType, simpleType, simpleContent or complexContent carries an unqualified attribute the library does not interpret there (of an element's, only default and form are accepted without effect), if one of these attributes, groups, types, extensions or restrictions contains a schema element the library does not support there, or if the root or a top-level component is of an unsupported kind. "
  "Namespace-qualified foreign attributes and foreign elements never affect the result.",
  ['programs'],'for all schema documents',
  "no test parses an unsupported schema",
  [XS+'node.rs',PA+'element.rs',PA+'attribute.rs',PA+'sequence.rs',PA+'choice.rs',PA+'complex_type.rs',PA+'simple_type.rs',PA+'simple_content.rs',PA+'complex_content.rs',PA+'annotation.rs',PA+'root.rs',XS+'schema.rs'],
  [('Node::prevent_unvisited_attributes','xsd-internal/src/xsd/node.rs'),('Children::prevent_unvisited_children','xsd-internal/src/xsd/node.rs'),('catch-all match arms','xsd-internal/src/xsd/parse/*.rs')],
  observe=['Schema::parse'])
p('C13','Includes and imports contribute all their definitions; failures are reported',
  "Parsing a schema makes available, besides its own, every top-level definition of every file it includes or imports, directly or transitively and relative to the including file, with references between the files resolved by namespace, whatever the order of the includes and however often or circularly a file is included. "
  "A file that cannot be read makes parsing fail with an error naming that file.",
  ['programs','configurations'],'for all include/import graphs, also cyclic ones',
  "tests have one include and two imports, one level deep",
  [XS+'schema.rs',XS+'context.rs'],
  [('parse_schema_with_context merging loop','xsd-internal/src/xsd/schema.rs'),('take_shared/set_shared/into_shared','xsd-internal/src/xsd/context.rs')],
  observe=['Schema::parse_file, Schema::elements'])
p('C14','Generating a type with its dependencies emits each reachable type once',
  "Asking for the code of a type with its dependencies emits that type and every type reachable from it through references, each exactly once, and nothing else; types the caller marked as already generated are not emitted again and newly emitted ones are added to that set, so that repeated calls together never emit a type twice.",
  ['programs','histories'],'for all dependency graphs, also cyclic ones, and all sequences of calls',
  "the function has no test",
  [XS+'schema.rs',XS+'context.rs'],
  [('generate_element_and_dependencies','xsd-internal/src/xsd/schema.rs'),('Context::discover_type','xsd-internal/src/xsd/context.rs')],
  observe=['Schema::generate_element_and_dependencies'])
p('C15','Every XML name yields valid generated code',
  "For every schema whose element, attribute and type names are XML names made of letters (also non-ASCII ones), digits, dashes, dots and underscores, Rust keywords included, and in which no two names become the same Rust identifier or one of the standard library's (such as Box or Vec), parsing and code generation do not panic, and the names in XML output and input are exactly those of the schema. "
  "A name whose converted form is a Rust keyword is escaped so that the generated code compiles.",
  ['programs'],'for all XML names in all naming positions',
  "tests use plain ASCII names and one keyword",
  ['xsd-internal/src/utils.rs',PA+'mod.rs',AST+'name.rs',AST+'leaf.rs'],
  [('escape_ident','xsd-internal/src/utils.rs'),('derive_virtual_name','xsd-internal/src/xsd/parse/mod.rs')],
  observe=['Schema::parse, Schema::generate_all'])
p('C16','Members of an all group may appear in any order',
  "For a type whose content is an all group, parsing a document accepts the member elements in every order and returns the same value for every order: required members must be present, optional members are present in the result exactly when they occur.",
  ['programs','inputs'],'for all all-groups, for all permutations of their members',
  "one test, with three required members in one order",
  [AST+'leaf.rs',PA+'complex_type.rs','xsd/src/decode.rs'],
  [('is_unordered / Node::child','xsd-internal/src/ast/leaf.rs, xsd/src/decode.rs')],
  observe=['T::from_xml'])
p('C17','Attribute declarations decide presence and type of attribute fields',
  "An attribute declared required becomes a plain field, an optional or undeclared use an optional field, and a prohibited attribute no field at all; a required attribute with a default, or a use other than these three, makes schema parsing fail. "
  "In documents the attribute is read and written under its own name on its own element, an absent optional attribute reads as absent and is not written, and an absent required one is an error.",
  ['programs','inputs'],'for all attribute declarations, for all documents',
  "one test has the use values optional and required with one document",
  [PA+'attribute.rs',AST+'attribute.rs','xsd/src/decode.rs'],
  [('attribute::parse','xsd-internal/src/xsd/parse/attribute.rs'),('Attribute::{to_impl,to_xml_impl,from_xml_impl}','xsd-internal/src/ast/attribute.rs')],
  observe=['generated fields, T::from_xml, T::to_xml, SchemaError'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
