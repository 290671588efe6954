#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script only so that the long lines stay editable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S="schemars/src/schema.rs"; G="schemars/src/generate.rs"; T="schemars/src/transform.rs"; X="schemars/src/_private/mod.rs"
E="schemars/src/encoding.rs"; SER="schemars/src/ser.rs"; M="schemars/src/json_schema_impls/maps.rs"

p("C01","A schema is always a JSON object or boolean, and edits act on that object",
 "Converting a JSON value (owned, shared or mutable) into a schema succeeds exactly when it is an object or a boolean, keeps the value unchanged, and never yields a schema holding anything else. Forcing a schema to an object leaves objects untouched and turns true into {} and false into {\"not\":{}}; insert, get, get-mut and remove then behave exactly like the same operation on that object's map (get and remove on a boolean schema return nothing and change nothing), leaving every other keyword as it was.",
 ["inputs"],"every JSON value, every boolean or object schema, every key and value",
 "tests use a handful of literals; the claim is over every JSON value and key",
 [S],[("validate / TryFrom<Value>, TryFrom<&Value>, TryFrom<&mut Value>",S),("ensure_object, insert, get, get_mut, remove, has_type, try_to_object, try_as_object_mut",S)],
 [("Schema.0","wrapped JSON value, invariant: Bool or Object",S)],["return values and the schema's JSON value after each call"])

p("C02","Definition names survive encoding into a reference and decoding back",
 "Encoding any name for use in a URI-fragment JSON Pointer and then percent-decoding it and undoing the ~0/~1 escapes gives back exactly the original name, and the encoded text contains only characters that are legal in a URI fragment and no raw '/'. Percent-decoding replaces exactly each '%' followed by two hexadecimal digits by that byte, keeps every other character as it is, and reports failure exactly when the resulting bytes are not UTF-8; looking up a '#'-prefixed pointer in a schema uses that decoding, and any other pointer is looked up as it is.",
 ["inputs"],"every Unicode string as a name, every string as percent-encoded input, every schema and pointer",
 "tests cover four names and nine encoded strings out of all Unicode strings",
 [E,S],[("encode_ref_name",E),("percent_decode",E),("Schema::pointer / pointer_mut",S)],None,["$ref strings in generated schemas","Schema::pointer results"])

p("C03","Every generated reference points at its own type's definition, names never clash",
 "When a sub-schema is requested the generator returns either the type's schema inlined, or a reference to the root if that type is the root currently being generated, or a reference whose decoded last segment is a definition present in the generator's definitions. Distinct (schema id, contract) pairs never share a definition name, the same pair always gets the same name (its preferred name if free, otherwise the preferred name followed by the smallest unused integer from 2), and each definition's schema is generated at most once for the generator's lifetime unless definitions were taken.",
 ["histories","programs"],"every sequence of generator calls and every set of types, whatever their names and ids, including recursive types and ids whose names collide or need escaping",
 "tests sample a few types; collisions, re-use after taking definitions and contract switches are histories no test enumerates",
 [G,E],[("subschema_for / find_ref / insert_new_subschema_for / json_schema_internal",G),("encode_ref_name",E)],
 [("schema_id_to_name","names handed out per (id, contract)",G),("used_schema_names","all names handed out",G),("definitions","generated definitions by name",G),("pending_schema_ids","ids being generated",G),("root_schema_id_stack","roots being generated",G)],["$ref strings and definitions in the output document"])

p("C04","Definitions are placed, complete, at the configured path of the root schema",
 "The root document contains every collected definition under the JSON Pointer configured as the definitions path (a leading '#' and a trailing '/' of the path being ignored, ~0/~1 in it unescaped, missing intermediate objects created), and adding them changes nothing else in the document; nothing is added when there are no definitions. The title is set only when absent and the meta-schema URI is set exactly when configured, and taking the definitions leaves the generator with none. (Nothing is added if something other than an object stands in the way of the path, or if the path is not a JSON Pointer.)",
 ["inputs","configurations"],"every root schema object, definitions map, definitions path and meta-schema setting",
 "tests use the default paths and one custom path",
 [G],[("add_definitions / json_pointer_mut / definitions_path_stripped / take_definitions",G),("root_schema_for / into_root_schema_for",G)],
 [("settings.definitions_path","where definitions go",G)],["the generated root document"])

p("C05","Recursive transforms reach every direct subschema exactly once and nothing else",
 "Applying a transform to the direct subschemas of a schema applies it exactly once to each value in schema position under the subschema-bearing keywords (single-schema, schema-array, schema-map, and items in both forms) and leaves every other keyword, every non-schema value, every key set and every array order untouched; boolean schemas are unchanged. Wrapping a transform as recursive applies it to the schema itself first and then to all schemas below it, to any depth.",
 ["inputs","programs"],"every schema and every user-supplied transform",
 "tests transform a few documents; the claim ranges over all nestings and all transforms",
 [T],[("transform_subschemas",T),("transform_immediate_subschemas",T),("RecursiveTransform",T)],None,["the schema after transform"])

p("C06","Boolean-schema replacement removes every boolean schema and changes nothing else",
 "After the boolean-schema replacement no boolean schema remains in any subschema position (true became {} and false became {\"not\":{}}), and nothing else in the document differs. With the option to skip additionalProperties set, a boolean additionalProperties value is kept as it is and everything else is still replaced.",
 ["inputs","configurations"],"every schema document, both settings of the option",
 "snapshot tests see a few documents",
 [T],[("ReplaceBoolSchemas",T)],None,["the schema after transform"])

p("C07","Reference-sibling removal isolates every $ref without losing a constraint",
 "After the reference-sibling removal, every object in subschema position that had a $ref next to other keywords has no $ref itself, and its allOf is its former allOf (if any) with exactly {\"$ref\": the same reference} appended; all other keywords are unchanged. Objects consisting of $ref alone, and objects without $ref, are unchanged apart from the same rule applied to their subschemas. (Well-formed documents only: an allOf is an array.)",
 ["inputs"],"every schema document whose allOf values are arrays",
 "snapshot tests see a few documents",
 [T],[("RemoveRefSiblings",T)],None,["the schema after transform"])

p("C08","Keyword-renaming transforms move the value exactly and touch nothing else",
 "For every object in subschema position: const becomes a one-element enum holding the same value; an examples array is removed and its first element, if any, becomes example; prefixItems becomes items and a previously present items becomes additionalItems. Each of the three transforms leaves every other keyword of every object unchanged.",
 ["inputs"],"every schema document (examples, where present, being an array as the keyword requires), each of the three transforms",
 "snapshot tests see a few documents",
 [T],[("ReplaceConstValue",T),("SetSingleExample",T),("ReplacePrefixItems",T)],None,["the schema after transform"])

p("C09","The nullable transform marks exactly the schemas whose type admits null",
 "After the nullable transform an object in subschema position carries nullable: true inserted by it exactly when its type is or contains null; with null-type removal on, null no longer occurs in that type, the other types are kept in order (a single remaining type becomes a plain string), and a null-only schema gets const null in place of its type when that option is on, or an empty type array otherwise. With null-type removal off the type is unchanged, and every other keyword is unchanged in all cases.",
 ["inputs","configurations"],"every schema document, all four settings",
 "snapshot tests cover default settings and a few documents",
 [T],[("AddNullable",T),("Schema::has_type",S)],None,["the schema after transform"])

p("C10","Replacing unevaluatedProperties keeps in-place subschemas properties allowed",
 "After the replacement no object in subschema position has unevaluatedProperties; where it was present its value (transformed) becomes additionalProperties and every property name declared by the schema's in-place applicators (allOf, anyOf, oneOf, if/then/else, to any depth) is a key of its properties, newly added keys being mapped to true. Existing properties and every other keyword are unchanged.",
 ["inputs"],"every schema document whose properties values are objects",
 "snapshot tests see a few documents",
 [T],[("ReplaceUnevaluatedProperties",T),("GatherPropertyNames",T),("transform_immediate_subschemas",T)],None,["the schema after transform"])

p("C11","Format restriction removes exactly the formats not allowed",
 "The format-restricting transform removes a string format from an object in subschema position exactly when it is neither in the allowed list nor defined by the JSON Schema draft in force there, where the draft is that of the nearest enclosing $schema when inference is on and no draft is in force when it is off. When inference is on and no recognised draft is in force (the $schema is missing or unknown), nothing there or below is changed until a recognised $schema is met; apart from the removed formats nothing is ever changed.",
 ["inputs","configurations"],"every schema document, every allowed list, inference on or off",
 "one unit test and one doc test fix the allowed list and the documents",
 [T],[("RestrictFormats / RestrictFormatsImpl / DEFINED_FORMATS",T)],[("inferred_formats","formats of the draft in force, restored on leaving a subschema",T)],["the schema after transform"])

p("C12","Optional schemas accept null and otherwise exactly what they accepted before",
 "Making a schema nullable yields a schema that accepts null and accepts any other value exactly when the original schema did. Doing it twice yields the same schema as doing it once.",
 ["inputs","programs"],"every schema a type may produce: booleans, and objects with any of type, const, enum, applicators and references, except those with both const and enum, those in which another keyword rejects null without an applicator or reference beside it, and lone anyOf lists with an alternative of type null that rejects null",
 "tests check Option of a few types",
 [X,"schemars/src/json_schema_impls/core.rs"],[("allow_null",X),("Option<T>::json_schema","schemars/src/json_schema_impls/core.rs")],None,["the schema of Option<T>"])

p("C13","Flattening merges two schemas without losing a keyword of either",
 "Merging a flattened field's object schema into a parent keeps every keyword of both: keywords present in only one are copied, required and allOf are concatenated parent first, properties and patternProperties are united with the flattened field winning, clashing oneOf/anyOf are both kept under allOf, and for any other clash the parent's value is kept. Before that (the parent first), additionalProperties is renamed to unevaluatedProperties on a side - replacing one it has already - exactly when the other side has unevaluatedProperties or an in-place applicator; merging false changes nothing, and merging true only allows additional properties where neither keyword was present.",
 ["inputs"],"every pair of parent and flattened schemas, allOf being an array where present; the order of the keywords copied is not fixed, only that the parent's array elements come first",
 "tests flatten a few derived structs",
 [X],[("flatten / flatten_property",X),("normalise_additional_unevaluated_properties / contains_immediate_subschema",X)],None,["the merged schema"])

p("C14","Object-building helpers add exactly the requested property, requirement or tag",
 "Adding a field puts exactly its schema under its name in properties, appends its name to required exactly when it is not optional, and changes nothing else. Tagging an internally tagged variant makes the schema an object whose properties map the tag to the variant's constant, lists the tag first in required, and forbids additional properties only for a unit variant of a type that denies unknown fields; externally tagged and unit variants are exactly a one-property closed object requiring the variant name, and the constant string. Metadata is set exactly when non-empty, and a validation keyword is set exactly when the schema's type admits the type it applies to (integer counting as number).",
 ["inputs","programs"],"every schema, field, variant and tag name, subschema and flag",
 "tests sample derived types only",
 [X],[("insert_object_property",X),("apply_internal_enum_variant_tag",X),("new_externally_tagged_enum_variant / new_unit_enum_variant",X),("insert_metadata_property_if_nonempty / insert_validation_property",X)],None,["the schema after each helper"])

p("C15","Flattened enums and newtype variants admit the outer object's own keys",
 "The schema of a flattened field never forbids unknown properties, at its top level or in any in-place applicator at any depth; its unit variants are turned into one-property objects holding null, and if the field is optional nothing is required and the empty object is accepted. The schema for a newtype variant of an internally tagged enum is a reference only when no in-place applicator of the type's schema forbids unknown properties.",
 ["inputs","programs"],"every schema a flattened or newtype-variant type may produce (an enum keyword, where present, being an array)",
 "tests flatten a few derived enums",
 [X],[("json_schema_for_flatten / remove_unit_variants / AllowUnknownProperties",X),("json_schema_for_internally_tagged_enum_newtype_variant",X)],None,["the schema of a struct with a flattened field, or of an internally tagged enum"])

p("C16","A 'contains' constraint matches exactly the strings containing the given text",
 "The pattern generated for a required substring is that text with a backslash before each regular-expression metacharacter and every other character unchanged, so that it matches exactly the strings containing the text literally. It is added exactly to schemas whose type admits strings, and no other keyword changes.",
 ["inputs"],"every substring and every schema",
 "tests use one or two substrings",
 [X,"schemars/src/_private/regex_syntax.rs"],[("must_contain",X),("escape / escape_into / is_meta_character","schemars/src/_private/regex_syntax.rs")],None,["the pattern keyword"])

p("C17","Doc comments split into title and description without losing text",
 "For every doc comment the title and description are computed without panicking: if the comment (ignoring surrounding ASCII whitespace) starts with '#', the title is its first line without the leading '#'s and surrounding whitespace, and the description is the rest trimmed. Otherwise the title is empty and the description is the whole comment trimmed.",
 ["inputs"],"every Unicode string",
 "tests use a few doc comments; multi-byte text next to the cut points and all-hash or blank lines are not covered",
 ["schemars/src/_private/rustdoc.rs"],[("get_title_and_description / trim_ascii / trim_start / subslice / strchr / to_utf8","schemars/src/_private/rustdoc.rs")],None,["the two returned strings"])

p("C18","Serializing a schema only reorders keywords",
 "Serializing a schema and parsing the result gives back an equal schema: no keyword, definition, property or array element is lost, duplicated or altered. The identifying and descriptive keywords come first and the definitions last, in their fixed order, and plain values (examples, defaults and x- extensions) are emitted exactly as stored.",
 ["inputs"],"every schema document",
 "snapshot tests see the documents of the test suite only",
 [S],[("OrderedKeywordWrapper::serialize",S)],None,["the serialized JSON text"])

p("C19","Map schemas accept every key their key type can serialize to",
 "The schema of a map allows, with the value type's schema, every property name that the key type's schema allows (strings by enum, pattern or unconstrained, and integers by their decimal digits, directly, through anyOf, or through a reference), and forbids other property names only if every alternative of the key schema restricts them.",
 ["inputs","programs"],"every key schema and value schema, and every property name",
 "tests use a handful of key types",
 [M],[("BTreeMap<K, V>::json_schema",M)],None,["the map type's schema"])

p("C20","A schema inferred from an example value accepts that value",
 "For every serializable value, the schema inferred from it accepts the JSON it serializes to and lists exactly that JSON as its only example. The properties of the schema inferred for a struct, or for a map serialized entry by entry, are exactly the serialized keys (a map handed over with collect_map gets a schema for its values instead), and structure seen only in some array elements does not make the schema reject other elements.",
 ["inputs","programs"],"every value whose JSON serialization succeeds",
 "tests use one or two example values",
 [SER,G],[("Serializer, SerializeSeq, SerializeTuple, SerializeMap",SER),("root_schema_for_value",G)],None,["the schema of schema_for_value"])

p("C21","Dialect presets produce documents free of keywords the dialect lacks",
 "After the transforms of the draft-07 preset, no object in subschema position has prefixItems, unevaluatedProperties, or a $ref beside other keywords; after the 2019-09 preset none has prefixItems; after the OpenAPI 3.0 preset no object in subschema position has prefixItems, unevaluatedProperties or a $ref beside other keywords, and there is no const, no examples array, no null type and no boolean schema other than a boolean additionalProperties.",
 ["inputs","configurations"],"every schema document (prefixItems being an array where present, type a string or an array of strings), each of the presets; subschema position means reachable through JSON Schema's applicator and definitions keywords, so not below #/components",
 "tests snapshot a few types per preset; the claim is about every document and about the order in which the transforms compose",
 [G,T],[("SchemaSettings::draft07 / draft2019_09 / draft2020_12 / openapi3",G),("the transforms they list",T)],None,["the generated root document"])

p("C22","Numeric and fixed-size schemas admit exactly the range of their Rust type",
 "The schema of each integer type admits its minimum and maximum values and, where it states bounds, states exactly the type's; unsigned types forbid negatives and non-zero types forbid zero. Arrays and tuples of n elements are constrained to exactly n items, each described by its element type.",
 ["programs"],"every primitive, non-zero, array and tuple type with an implementation",
 "snapshot tests cover some of the macro-generated instances only",
 ["schemars/src/json_schema_impls/primitives.rs","schemars/src/json_schema_impls/nonzero.rs","schemars/src/json_schema_impls/array.rs","schemars/src/json_schema_impls/tuple.rs"],[("ranged_impl / unsigned_impl / simple_impl","schemars/src/json_schema_impls/primitives.rs"),("nonzero_*_impl","schemars/src/json_schema_impls/nonzero.rs"),("array_impls / tuple_impls","schemars/src/json_schema_impls/array.rs")],None,["the types' schemas"])

p("C23","Derived schemas agree with serde on names, tags and required fields",
 "For every type deriving the schema together with serde's traits, the JSON that serde produces for a value is accepted by the serialize-contract schema, and JSON accepted by the closed deserialize-contract schema is accepted by serde's deserializer as far as names, tags, required fields and unknown-field handling are concerned. The serialize-contract schema requires exactly the members that serde always writes, and the deserialize-contract schema requires a member exactly when serde's deserializer does (for the serde attributes the derive supports).",
 ["programs","inputs"],"every Rust type definition with supported serde, schemars, validator and garde attributes",
 "tests enumerate some attribute combinations",
 ["schemars_derive/src/schema_exprs.rs","schemars_derive/src/name.rs","schemars_derive/src/attr/mod.rs"],[("expr_for_container and the attribute readers","schemars_derive/src/schema_exprs.rs")],None,["generated code"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
