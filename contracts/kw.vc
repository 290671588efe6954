@@ generated by tools/mkkw.py
@verus
pub open spec fn kwid(s: Seq<char>) -> int {
  if s == "not"@ { 0 } else if s == "if"@ { 1 } else if s == "then"@ { 2 } else if s == "else"@ { 3 } else if s == "contains"@ { 4 } else if s == "additionalProperties"@ { 5 } else if s == "propertyNames"@ { 6 } else if s == "additionalItems"@ { 7 } else if s == "unevaluatedProperties"@ { 8 } else if s == "unevaluatedItems"@ { 9 } else if s == "contentSchema"@ { 10 } else if s == "allOf"@ { 11 } else if s == "anyOf"@ { 12 } else if s == "oneOf"@ { 13 } else if s == "prefixItems"@ { 14 } else if s == "items"@ { 15 } else if s == "properties"@ { 16 } else if s == "patternProperties"@ { 17 } else if s == "dependentSchemas"@ { 18 } else if s == "$defs"@ { 19 } else if s == "definitions"@ { 20 } else if s == "$ref"@ { 21 } else if s == "$schema"@ { 22 } else if s == "$id"@ { 23 } else if s == "type"@ { 24 } else if s == "format"@ { 25 } else if s == "enum"@ { 26 } else if s == "const"@ { 27 } else if s == "example"@ { 28 } else if s == "examples"@ { 29 } else if s == "default"@ { 30 } else if s == "nullable"@ { 31 } else if s == "required"@ { 32 } else if s == "title"@ { 33 } else if s == "description"@ { 34 } else if s == "null"@ { 35 } else if s == "string"@ { 36 } else if s == "object"@ { 37 } else if s == "array"@ { 38 } else if s == "number"@ { 39 } else if s == "integer"@ { 40 } else if s == "boolean"@ { 41 } else if s == "pattern"@ { 42 } else if s == "minItems"@ { 43 } else if s == "maxItems"@ { 44 } else if s == "minimum"@ { 45 } else if s == "maximum"@ { 46 } else if s == "uniqueItems"@ { 47 } else if s == "minLength"@ { 48 } else if s == "maxLength"@ { 49 } else if s == "false"@ { 50 } else if s == "true"@ { 51 } else if s == "Ok"@ { 52 } else if s == "Err"@ { 53 } else { -1 }
}
pub proof fn lemma_kwid()
  ensures
    kwid("not"@) == 0,
    kwid("if"@) == 1,
    kwid("then"@) == 2,
    kwid("else"@) == 3,
    kwid("contains"@) == 4,
    kwid("additionalProperties"@) == 5,
    kwid("propertyNames"@) == 6,
    kwid("additionalItems"@) == 7,
    kwid("unevaluatedProperties"@) == 8,
    kwid("unevaluatedItems"@) == 9,
    kwid("contentSchema"@) == 10,
    kwid("allOf"@) == 11,
    kwid("anyOf"@) == 12,
    kwid("oneOf"@) == 13,
    kwid("prefixItems"@) == 14,
    kwid("items"@) == 15,
    kwid("properties"@) == 16,
    kwid("patternProperties"@) == 17,
    kwid("dependentSchemas"@) == 18,
    kwid("$defs"@) == 19,
    kwid("definitions"@) == 20,
    kwid("$ref"@) == 21,
    kwid("$schema"@) == 22,
    kwid("$id"@) == 23,
    kwid("type"@) == 24,
    kwid("format"@) == 25,
    kwid("enum"@) == 26,
    kwid("const"@) == 27,
    kwid("example"@) == 28,
    kwid("examples"@) == 29,
    kwid("default"@) == 30,
    kwid("nullable"@) == 31,
    kwid("required"@) == 32,
    kwid("title"@) == 33,
    kwid("description"@) == 34,
    kwid("null"@) == 35,
    kwid("string"@) == 36,
    kwid("object"@) == 37,
    kwid("array"@) == 38,
    kwid("number"@) == 39,
    kwid("integer"@) == 40,
    kwid("boolean"@) == 41,
    kwid("pattern"@) == 42,
    kwid("minItems"@) == 43,
    kwid("maxItems"@) == 44,
    kwid("minimum"@) == 45,
    kwid("maximum"@) == 46,
    kwid("uniqueItems"@) == 47,
    kwid("minLength"@) == 48,
    kwid("maxLength"@) == 49,
    kwid("false"@) == 50,
    kwid("true"@) == 51,
    kwid("Ok"@) == 52,
    kwid("Err"@) == 53,
{
  reveal_strlit("not"); reveal_strlit("if"); reveal_strlit("then"); reveal_strlit("else"); reveal_strlit("contains"); reveal_strlit("additionalProperties"); reveal_strlit("propertyNames"); reveal_strlit("additionalItems"); reveal_strlit("unevaluatedProperties"); reveal_strlit("unevaluatedItems"); reveal_strlit("contentSchema"); reveal_strlit("allOf"); reveal_strlit("anyOf"); reveal_strlit("oneOf"); reveal_strlit("prefixItems"); reveal_strlit("items"); reveal_strlit("properties"); reveal_strlit("patternProperties"); reveal_strlit("dependentSchemas"); reveal_strlit("$defs"); reveal_strlit("definitions"); reveal_strlit("$ref"); reveal_strlit("$schema"); reveal_strlit("$id"); reveal_strlit("type"); reveal_strlit("format"); reveal_strlit("enum"); reveal_strlit("const"); reveal_strlit("example"); reveal_strlit("examples"); reveal_strlit("default"); reveal_strlit("nullable"); reveal_strlit("required"); reveal_strlit("title"); reveal_strlit("description"); reveal_strlit("null"); reveal_strlit("string"); reveal_strlit("object"); reveal_strlit("array"); reveal_strlit("number"); reveal_strlit("integer"); reveal_strlit("boolean"); reveal_strlit("pattern"); reveal_strlit("minItems"); reveal_strlit("maxItems"); reveal_strlit("minimum"); reveal_strlit("maximum"); reveal_strlit("uniqueItems"); reveal_strlit("minLength"); reveal_strlit("maxLength"); reveal_strlit("false"); reveal_strlit("true"); reveal_strlit("Ok"); reveal_strlit("Err");
  assert("else"@[0] != "then"@[0]);
  assert("contentSchema"@[0] != "propertyNames"@[0]);
  assert("anyOf"@[1] != "allOf"@[1]);
  assert("oneOf"@[0] != "allOf"@[0]);
  assert("oneOf"@[0] != "anyOf"@[0]);
  assert("items"@[0] != "allOf"@[0]);
  assert("items"@[0] != "anyOf"@[0]);
  assert("items"@[0] != "oneOf"@[0]);
  assert("dependentSchemas"@[0] != "unevaluatedItems"@[0]);
  assert("$defs"@[0] != "allOf"@[0]);
  assert("$defs"@[0] != "anyOf"@[0]);
  assert("$defs"@[0] != "oneOf"@[0]);
  assert("$defs"@[0] != "items"@[0]);
  assert("definitions"@[0] != "prefixItems"@[0]);
  assert("$ref"@[0] != "then"@[0]);
  assert("$ref"@[0] != "else"@[0]);
  assert("$id"@[0] != "not"@[0]);
  assert("type"@[1] != "then"@[1]);
  assert("type"@[0] != "else"@[0]);
  assert("type"@[0] != "$ref"@[0]);
  assert("enum"@[0] != "then"@[0]);
  assert("enum"@[1] != "else"@[1]);
  assert("enum"@[0] != "$ref"@[0]);
  assert("enum"@[0] != "type"@[0]);
  assert("const"@[0] != "allOf"@[0]);
  assert("const"@[0] != "anyOf"@[0]);
  assert("const"@[0] != "oneOf"@[0]);
  assert("const"@[0] != "items"@[0]);
  assert("const"@[0] != "$defs"@[0]);
  assert("example"@[0] != "$schema"@[0]);
  assert("examples"@[0] != "contains"@[0]);
  assert("default"@[0] != "$schema"@[0]);
  assert("default"@[0] != "example"@[0]);
  assert("nullable"@[0] != "contains"@[0]);
  assert("nullable"@[0] != "examples"@[0]);
  assert("required"@[0] != "contains"@[0]);
  assert("required"@[0] != "examples"@[0]);
  assert("required"@[0] != "nullable"@[0]);
  assert("title"@[0] != "allOf"@[0]);
  assert("title"@[0] != "anyOf"@[0]);
  assert("title"@[0] != "oneOf"@[0]);
  assert("title"@[0] != "items"@[0]);
  assert("title"@[0] != "$defs"@[0]);
  assert("title"@[0] != "const"@[0]);
  assert("description"@[0] != "prefixItems"@[0]);
  assert("description"@[2] != "definitions"@[2]);
  assert("null"@[0] != "then"@[0]);
  assert("null"@[0] != "else"@[0]);
  assert("null"@[0] != "$ref"@[0]);
  assert("null"@[0] != "type"@[0]);
  assert("null"@[0] != "enum"@[0]);
  assert("string"@[0] != "format"@[0]);
  assert("object"@[0] != "format"@[0]);
  assert("object"@[0] != "string"@[0]);
  assert("array"@[1] != "allOf"@[1]);
  assert("array"@[1] != "anyOf"@[1]);
  assert("array"@[0] != "oneOf"@[0]);
  assert("array"@[0] != "items"@[0]);
  assert("array"@[0] != "$defs"@[0]);
  assert("array"@[0] != "const"@[0]);
  assert("array"@[0] != "title"@[0]);
  assert("number"@[0] != "format"@[0]);
  assert("number"@[0] != "string"@[0]);
  assert("number"@[0] != "object"@[0]);
  assert("integer"@[0] != "$schema"@[0]);
  assert("integer"@[0] != "example"@[0]);
  assert("integer"@[0] != "default"@[0]);
  assert("boolean"@[0] != "$schema"@[0]);
  assert("boolean"@[0] != "example"@[0]);
  assert("boolean"@[0] != "default"@[0]);
  assert("boolean"@[0] != "integer"@[0]);
  assert("pattern"@[0] != "$schema"@[0]);
  assert("pattern"@[0] != "example"@[0]);
  assert("pattern"@[0] != "default"@[0]);
  assert("pattern"@[0] != "integer"@[0]);
  assert("pattern"@[0] != "boolean"@[0]);
  assert("minItems"@[0] != "contains"@[0]);
  assert("minItems"@[0] != "examples"@[0]);
  assert("minItems"@[0] != "nullable"@[0]);
  assert("minItems"@[0] != "required"@[0]);
  assert("maxItems"@[0] != "contains"@[0]);
  assert("maxItems"@[0] != "examples"@[0]);
  assert("maxItems"@[0] != "nullable"@[0]);
  assert("maxItems"@[0] != "required"@[0]);
  assert("maxItems"@[1] != "minItems"@[1]);
  assert("minimum"@[0] != "$schema"@[0]);
  assert("minimum"@[0] != "example"@[0]);
  assert("minimum"@[0] != "default"@[0]);
  assert("minimum"@[0] != "integer"@[0]);
  assert("minimum"@[0] != "boolean"@[0]);
  assert("minimum"@[0] != "pattern"@[0]);
  assert("maximum"@[0] != "$schema"@[0]);
  assert("maximum"@[0] != "example"@[0]);
  assert("maximum"@[0] != "default"@[0]);
  assert("maximum"@[0] != "integer"@[0]);
  assert("maximum"@[0] != "boolean"@[0]);
  assert("maximum"@[0] != "pattern"@[0]);
  assert("maximum"@[1] != "minimum"@[1]);
  assert("uniqueItems"@[0] != "prefixItems"@[0]);
  assert("uniqueItems"@[0] != "definitions"@[0]);
  assert("uniqueItems"@[0] != "description"@[0]);
  assert("maxLength"@[1] != "minLength"@[1]);
  assert("false"@[0] != "allOf"@[0]);
  assert("false"@[0] != "anyOf"@[0]);
  assert("false"@[0] != "oneOf"@[0]);
  assert("false"@[0] != "items"@[0]);
  assert("false"@[0] != "$defs"@[0]);
  assert("false"@[0] != "const"@[0]);
  assert("false"@[0] != "title"@[0]);
  assert("false"@[0] != "array"@[0]);
  assert("true"@[1] != "then"@[1]);
  assert("true"@[0] != "else"@[0]);
  assert("true"@[0] != "$ref"@[0]);
  assert("true"@[1] != "type"@[1]);
  assert("true"@[0] != "enum"@[0]);
  assert("true"@[0] != "null"@[0]);
  assert("Ok"@[0] != "if"@[0]);
  assert("Err"@[0] != "not"@[0]);
  assert("Err"@[0] != "$id"@[0]);
}
