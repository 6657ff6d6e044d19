#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))
DER = ["opg_derive/src/opg.rs", "opg_derive/src/attr.rs", "opg_derive/src/ast.rs"]

p("C01", "Every value serde serializes validates against the derived schema",
  "For every type that derives both serde's Serialize and OpgModel, every JSON document serde produces from a value of that type validates against the type's schema with `$ref`s resolved in the same components (an alternative of `oneOf`/`anyOf` has to match; `nullable`, `enum`, `required`, `items`, `additionalProperties` and the integer, uuid and date formats are enforced). This holds for named-field, newtype, tuple and transparent structs, generic and recursive types, enums in serde's four tagging modes and serde_repr enums, with renames, skips and fields of any supported standard type at any nesting. Only a serializer overridden without declaring the resulting type is out of scope.",
  ["programs", "inputs"], "all type definitions in the supported subset, and all values of them",
  "The suite compares the schema text of some 20 fixed types and never serializes a value of any of them, so agreement between schema and data is not tested at all.",
  DER + ["opg/src/lib.rs", "opg/src/macros.rs", "opg/src/models.rs"],
  [("derive(OpgModel): one code path per container shape and tagging mode", "opg_derive/src/opg.rs"),
   ("schemas of standard types", "opg/src/lib.rs, impl_opg_model! in opg/src/macros.rs")],
  ["serde_json output of values", "schema and components returned by the public API"])

p("C02", "Property, variant and tag names in a schema are the names serde emits",
  "Every property name, string-enum value and tag value in a derived schema is exactly the name serde writes when serializing, for every identifier (raw, with leading or repeated underscores, digits, acronyms, non-ASCII letters), every `rename_all` rule on a container or variant and every `rename`, in both the plain and the `serialize = ...` form. An explicit rename wins over a rule, a container rule on an enum renames variants only, a variant rule renames that variant's fields, and a deserialize-only rename changes nothing.",
  ["programs"], "all identifiers, rename rules and rename forms in all positions",
  "Two unit tests sample four identifiers per rule against literals; the wiring of rules to fields, variants and tags is sampled by three types and never compared with serde.",
  ["opg_derive/src/case.rs", "opg_derive/src/attr.rs", "opg_derive/src/ast.rs", "opg_derive/src/dummy.rs"],
  [("rename rules", "opg_derive/src/case.rs"), ("rule and rename resolution", "attr.rs Name, ast.rs Container::from_ast"),
   ("raw identifiers", "dummy.rs unraw")],
  ["property keys, enum and tag values in the schema", "keys and strings in serde_json output"])

p("C03", "Object schemas list exactly the emitted fields and the always-present ones",
  "The schema of a struct or struct-like variant has exactly one property per field that serde serializes, and its `required` list is, in declaration order, exactly the serialized fields that are neither conditionally skipped (`skip_serializing_if`) nor marked optional. A field or variant skipped for serialization leaves no trace in any schema, and its type is neither required to have a schema nor registered as a component. A field that is only skipped or defaulted on deserialization is kept and stays required.",
  ["programs"], "all structs and enums over all combinations of skip and optional attributes, including very large ones",
  "No existing test uses skip, skip_serializing or skip_serializing_if; one field in the suite is optional.",
  DER + ["opg_derive/src/bound.rs"],
  [("object and tuple description", "opg_derive/src/opg.rs object_type_description, tuple_type_description"),
   ("skip and optional attributes", "opg_derive/src/attr.rs Field, Variant")],
  ["`properties`, `required`, alternatives and component names", "keys of serialized values"])

p("C04", "Documentation attributes reach exactly the schema they annotate",
  "A description, format, example (literal or computed) or nullable flag declared with `#[opg(...)]` on a container, variant or field appears verbatim in the schema of that element, where its kind has such an attribute, and in no other. The innermost annotation wins (field over variant or newtype container), a newtype inherits from the type it wraps whatever it does not override, an explicit type on a field or newtype struct replaces the type's own schema, and `any` on a field yields the empty schema. Annotating one use of a type never changes the schema seen by its other uses, and strings survive whatever characters they contain.",
  ["programs", "inputs"], "all annotation combinations on all positions, with arbitrary text",
  "About ten annotations with plain ASCII text are sampled; precedence is checked on one newtype.",
  ["opg_derive/src/opg.rs", "opg_derive/src/attr.rs", "opg/src/models.rs"],
  [("precedence of parameters", "opg_derive/src/opg.rs ContextParams"), ("application to a schema", "opg/src/models.rs apply_params"),
   ("explicit types", "opg_derive/src/opg.rs newtype_model, field_model_reference")],
  ["description, format, example, nullable, type of every schema node"])

p("C05", "Enum schemas follow serde's tagging mode with every variant, once, in order",
  "A derived enum is described in the shape of its serde representation: plain strings for unit-only enums, a one-key object for externally tagged ones, bare alternatives for untagged ones, objects carrying their own tag value for internally tagged ones, a tag plus (when present) content for adjacently tagged ones, and integers for repr enums. Every variant that is serialized contributes exactly one alternative or tag value, in declaration order, built from exactly that variant's own data. The tag property is always required and its allowed values are exactly the variant names; the example of a repr variant is the integer serde_repr writes.",
  ["programs"], "all enums: tagging mode, number, order and style of variants, discriminants",
  "One fixed enum per tagging mode, with two or three variants; unit variants in tagged enums and struct variants in adjacently tagged ones are not sampled.",
  DER,
  [("one generator per mode", "opg_derive/src/opg.rs serialize_*_enum"), ("mode selection", "opg_derive/src/attr.rs decide_tag, decide_model_type")],
  ["schema of the enum", "serialized value of every variant"])

p("C06", "Standard types have their fixed schema, unchanged by wrapping and nesting",
  "Each supported scalar, atomic, unit, uuid and chrono type has one fixed schema (type, format, example, description). References, Box, Rc, Arc, Cell and RefCell are transparent, Option adds exactly the possibility of null, sequences, sets and arrays are arrays of the element schema, tuples are arrays whose items are any of the element schemas in order, and maps are objects whose additional properties are the value schema. This composes at any nesting depth and arity and is the same in every combination of the crate's cargo features.",
  ["inputs", "configurations"], "all types built from the supported standard types, all tuple arities and array lengths, all feature sets",
  "The suite covers String, &str, i32, u32, u64, (), Uuid, one tuple, one map, Option and Box, in one feature configuration.",
  ["opg/src/lib.rs", "opg/src/macros.rs"],
  [("standard implementations", "opg/src/lib.rs"), ("impl_opg_model!", "opg/src/macros.rs"), ("array implementation per feature", "opg/src/lib.rs")],
  ["schema and reference of the type", "serde_json output of its values"])

p("C07", "Every reference in a generated document resolves to the schema of its type",
  "After any sequence of mentions (through describe_api, derived types or direct calls) of types with distinct names, every `$ref` anywhere in the document names an existing component. The component under a type's name is that type's own complete schema, whichever route reached it: directly, behind Option, Box or other wrappers, inside collections, tuples, maps, variants, parameters, bodies, responses or callbacks. No component exists that nothing mentioned, and no reserved or partial schema is left behind.",
  ["programs", "histories"], "all type graphs and all documents built from them",
  "Two components with one link are sampled; no test checks resolution of a whole document.",
  ["opg/src/models.rs", "opg/src/macros.rs", "opg_derive/src/opg.rs"],
  [("registration on mention", "opg/src/models.rs Components::mention_schema"), ("reference selection", "opg/src/models.rs OpgModel::select_reference and overrides")],
  ["all `$ref`s and component keys in the serialized document"],
  [dict(name="schemas", meaning="registered components by name", where="opg/src/models.rs Components")])

p("C08", "Registration is order-independent, idempotent and never overwrites",
  "Registering the same set of types in any order, any number of times, directly or through wrappers, yields the same components and the same reference for each type. Mentioning a type, adding a model by hand or mentioning a security scheme under a name that is already taken leaves the existing entry untouched, returns the same reference or name, and unrelated entries never change. An entry once observed is never removed or altered by later registrations.",
  ["histories"], "all sequences of mentions, manual additions and security scheme mentions over all type graphs",
  "No test mentions a type twice, in two orders, or over an existing entry.",
  ["opg/src/models.rs", "opg/src/macros.rs"],
  [("mention_schema, add_model, mention_security_scheme, contains_model", "opg/src/models.rs Components")],
  ["return values and component maps after every step of a history"],
  [dict(name="schemas, security_schemes", meaning="registered components", where="opg/src/models.rs Components")])

p("C09", "Schema generation terminates on recursive types, building each type once",
  "Mentioning any type whose definition refers to itself, directly or through any chain of types, wrappers and containers, terminates with every named type of the cycle registered and linked (unless newtypes or inlining alone put the type in place inside itself, so that it has no finite schema). While a set of types is registered, the schema of a named type is built once for its component, plus once for each place that embeds it (an inlined use, a newtype or an internally tagged newtype variant around it), however often it is linked, so the work is linear in the size of the type graph. Mentioning a type already registered builds nothing.",
  ["programs", "histories"], "all type graphs, including cyclic and heavily shared ones (recursion through inlined types excepted)",
  "The only recursive type of the suite is never exercised (its function is not a test).",
  ["opg/src/models.rs", "opg/src/macros.rs", "opg_derive/src/opg.rs"],
  [("name reserved before the schema is built", "opg/src/models.rs Components::mention_schema")],
  ["calls of get_schema per type, recursion depth", "resulting components"])

p("C10", "Schema verification finds a dangling link anywhere, and only then fails",
  "Verification of components succeeds exactly when every link to a schema, at any depth of any registered model (properties, additional properties, array items, oneOf, allOf, anyOf, inlined models), names a registered model. When it fails, the reported name is the name of such a dangling link. It does not modify the components.",
  ["inputs"], "all sets of models of any shape and depth, any names",
  "Two components are sampled, both with the link as a direct property.",
  ["opg/src/models.rs"],
  [("traversal", "opg/src/models.rs traverse methods"), ("lookup", "TraverseContext::check")],
  ["result of verify_schemas against the serialized components"])

p("C11", "A described API yields a document with exactly what was declared",
  "The document built by describe_api contains exactly the declared info, servers, tags, paths, operations, parameters, request bodies, responses and callbacks, each with its declared attributes in its own place: nothing is lost, duplicated, merged or moved to another path, operation or callback. Servers, paths, operation tags and callback paths keep declaration order, and any subset and order of sections and properties is accepted, with or without trailing commas. Undeclared attributes take the documented defaults: headers and bodies required, query parameters not, header schema string, and a response description that is the standard reason phrase of its status code.",
  ["programs"], "all combinations and orders of sections, paths, methods, parameters, bodies, responses, callbacks",
  "One fixed API with two paths is compared.",
  ["opg/src/macros.rs", "opg/src/models.rs"],
  [("describe_api! rules", "opg/src/macros.rs"), ("Operation builders", "opg/src/models.rs")],
  ["serialized document against the declaration"])

p("C12", "Path templates and declared path parameters agree",
  "Every `{name}` placeholder of a generated path has exactly one parameter declared on that path with the same name, `in: path`, `required: true` and the schema of the placeholder's type; no other path parameter exists. The path text is `/` followed by its segments in order, with an unnamed placeholder taking the type's name with a lower-case first letter. Header and query parameters declared on a path or operation keep their own location, name, schema and required flag and do not disturb placeholders of other names.",
  ["programs"], "all path shapes: segment order, number and kind of placeholders, parameter types, nested callbacks",
  "Two placeholders are sampled.",
  ["opg/src/macros.rs", "opg/src/models.rs"],
  [("@opg_path_url and @opg_path_insert_url_param rules", "opg/src/macros.rs"), ("path serialization", "opg/src/models.rs serialize_path_elements"),
   ("parameter serialization", "opg/src/models.rs serialize_parameters")],
  ["path keys and `parameters` of the serialized document"])

p("C13", "Security schemes and requirements are recorded as declared",
  "Every declared http (basic, bearer) and apiKey scheme appears once in the components under its name with its kind, location, key name, bearer format and description, whether declared inline or given as a variable. Each operation lists its alternative requirements in order, each alternative holding exactly the schemes joined with `&&` and their roles. A scheme variable used in a requirement is registered under the variable's name without altering schemes already declared.",
  ["programs"], "all scheme declarations and requirement expressions",
  "One requirement and four schemes are sampled; roles, scheme variables and alternatives are not.",
  ["opg/src/macros.rs", "opg/src/models.rs"],
  [("@opg_security_scheme* and @opg_path_value_security* rules", "opg/src/macros.rs"), ("mention_security_scheme", "opg/src/models.rs")],
  ["components.securitySchemes and operation `security` of the serialized document"])

p("C14", "Any document serializes to well-formed, loss-free OpenAPI 3.0.3",
  "Every document value that can be built with the public types, its paths having distinct texts, serializes without error to JSON and YAML that denote the same data, with the structure and key spelling of OpenAPI 3.0.3. Every field that is set appears exactly once with its value unchanged, whatever characters it contains; absent or empty optional fields and false flags are omitted, never written as null. A schema reference is an object whose only key is `$ref`, pointing below `#/components/schemas/`.",
  ["inputs"], "all values of the public document types",
  "The suite serializes one document, two hand-made models and about twenty derived ones, all plain ASCII.",
  ["opg/src/models.rs", "opg/src/lib.rs"],
  [("Serialize implementations and serde attributes", "opg/src/models.rs"), ("version and prefix constants", "opg/src/lib.rs")],
  ["JSON and YAML text of the document"])

p("C15", "Context parameters override exactly the attributes they set",
  "Applying context parameters to a schema replaces the description, nullability, format, example and string variants that the parameters set, where the schema's kind has them, and leaves everything else (type, properties, items, alternatives, required list, nested schemas) unchanged. Unset parameters change nothing, and applying the same parameters twice equals applying them once. Mentioning a type with parameters applies them to an inlined schema and never to the shared component.",
  ["inputs", "histories"], "all schemas of any kind and depth, all parameter combinations, all mention modes",
  "Parameters are exercised only through a few derived types; no test varies them over schema kinds.",
  ["opg/src/models.rs"],
  [("apply_params", "opg/src/models.rs Model, ModelData, ModelType, ModelTypeDescription, ModelString, ModelSimple"),
   ("get_schema_with_params, select_reference", "opg/src/models.rs OpgModel")],
  ["schema before and after"])

p("C16", "Merging object schemas is a checked union that never overwrites",
  "Merging two object schemas succeeds exactly when their property names are disjoint and then yields all properties of both and the required names of the target followed by those of the other; merging anything that is not a plain object schema fails. Adding a property succeeds exactly when its name is free and then adds just that property, required or not as asked. A failure never replaces or removes an existing property, nor changes a required list, description or nullability.",
  ["inputs", "histories"], "all pairs of schemas and all sequences of additions",
  "Merging is reached by one internally tagged enum, always without conflict; adding a property is not tested.",
  ["opg/src/models.rs"],
  [("try_merge, merge, add_property", "opg/src/models.rs Model, ModelObject")],
  ["result and target before and after every operation"])

p("C17", "Inline type descriptions build exactly the described model",
  "A model written with describe_type has exactly the described type, description, format, example, variants, items and properties, nested to any depth, with unmentioned attributes absent. Properties marked required, and only those, are in the required list in the order written. Links (literal or variable), raw models and raw types are embedded unchanged, and values may be any text.",
  ["programs"], "all nestings of the description language, all text values",
  "One fixed description is compared.",
  ["opg/src/macros.rs"],
  [("describe_type! rules", "opg/src/macros.rs"), ("optional attributes", "FromStrangeTuple in opg/src/macros.rs")],
  ["serialized model against the description"])

p("C18", "The derive rejects what it cannot describe instead of guessing",
  "Deriving a schema fails at compile time for unions, unit structs, untagged enums of unit variants, enums with only some explicit discriminants, unknown or malformed opg attributes, the same attribute or two explicit types given twice on one item, and non-string values of string attributes, on containers, variants and fields alike. The same definition without the offending part compiles. Attributes of other tools and serde attributes that do not affect serialization are accepted and ignored.",
  ["programs"], "all misuse kinds in all positions, each with a valid twin",
  "The suite contains no compile-fail test.",
  ["opg_derive/src/attr.rs", "opg_derive/src/ast.rs", "opg_derive/src/parsing_context.rs", "opg_derive/src/lib.rs"],
  [("attribute parsing and duplicate detection", "opg_derive/src/attr.rs"), ("error collection", "opg_derive/src/parsing_context.rs")],
  ["compiler verdict and diagnostics"])

p("C19", "Inlining is honoured exactly where it is requested",
  "A named type is described by a link to its component everywhere except where inlining is requested: on the use (field, variant or direct request), or on the type itself, in which case its full schema is embedded in place. An inlined use neither registers nor alters the component of that type, while the types it refers to are still registered and linked. Apart from being in place (and carrying the annotations of the use), the embedded schema is the schema a link would lead to.",
  ["programs", "histories"], "all type graphs with inline requests on types, fields and variants",
  "One inlined field is sampled.",
  ["opg/src/models.rs", "opg_derive/src/opg.rs", "opg/src/macros.rs"],
  [("select_reference", "opg/src/models.rs OpgModel, opg_derive/src/opg.rs implement_type"), ("inline predicates", "opg_derive/src/opg.rs")],
  ["references and components"])

p("C20", "Output is deterministic, with declared or sorted order",
  "The same declarations produce byte-identical JSON and YAML on every generation, in every thread, process and fresh compilation. Named entries (components, security schemes, properties, tags, parameters, responses) are in sorted order, operations in the fixed order of methods, and paths, servers, alternatives, enum values and required lists in declaration order.",
  ["schedules", "programs", "inputs"], "all documents, repeated over threads, processes and compilations",
  "The suite runs each generation once per process.",
  ["opg/src/models.rs", "opg/src/macros.rs", "opg_derive/src/opg.rs", "opg_derive/src/bound.rs"],
  [("ordered maps and lists", "opg/src/models.rs"), ("ordered code generation", "opg_derive/src/opg.rs, bound.rs")],
  ["bytes of the serialized document"])

p("C21", "Generic types compile with minimal bounds and describe each instantiation",
  "Deriving a schema for a generic type applies to every instantiation whose type parameters in serialized fields have schemas: parameters used only in skipped fields or variants need none, and associated types as fields, lifetimes, defaults, const parameters, existing bounds and where clauses are supported. The schema of an instantiation equals the schema of the same type written out without generics. Instantiations of different generic types do not influence each other.",
  ["programs"], "all generic definitions in the supported subset and all instantiations",
  "Two generic structs with one instantiation each.",
  ["opg_derive/src/bound.rs", "opg_derive/src/opg.rs"],
  [("bound inference", "opg_derive/src/bound.rs with_bound, without_default")],
  ["compiler verdict", "schema of the instantiation against the hand-written type"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
