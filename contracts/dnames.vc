@@ generated by tools/mkdnames.py
@verus
pub open spec fn did(s: Seq<char>) -> int {
  if s == "not"@ { 0 } else if s == "contains"@ { 1 } else if s == "additionalProperties"@ { 2 } else if s == "propertyNames"@ { 3 } else if s == "additionalItems"@ { 4 } else if s == "unevaluatedProperties"@ { 5 } else if s == "unevaluatedItems"@ { 6 } else if s == "contentSchema"@ { 7 } else if s == "allOf"@ { 8 } else if s == "anyOf"@ { 9 } else if s == "oneOf"@ { 10 } else if s == "prefixItems"@ { 11 } else if s == "items"@ { 12 } else if s == "properties"@ { 13 } else if s == "patternProperties"@ { 14 } else if s == "dependentSchemas"@ { 15 } else if s == "$defs"@ { 16 } else if s == "definitions"@ { 17 } else if s == "$ref"@ { 18 } else if s == "$schema"@ { 19 } else if s == "type"@ { 20 } else if s == "format"@ { 21 } else if s == "enum"@ { 22 } else if s == "const"@ { 23 } else if s == "examples"@ { 24 } else if s == "default"@ { 25 } else if s == "nullable"@ { 26 } else if s == "required"@ { 27 } else if s == "title"@ { 28 } else if s == "description"@ { 29 } else if s == "null"@ { 30 } else if s == "string"@ { 31 } else if s == "object"@ { 32 } else if s == "array"@ { 33 } else if s == "number"@ { 34 } else if s == "integer"@ { 35 } else if s == "boolean"@ { 36 } else if s == "pattern"@ { 37 } else if s == "minItems"@ { 38 } else if s == "maxItems"@ { 39 } else if s == "minimum"@ { 40 } else if s == "maximum"@ { 41 } else if s == "uniqueItems"@ { 42 } else if s == "minLength"@ { 43 } else if s == "maxLength"@ { 44 } else if s == "deprecated"@ { 45 } else if s == "readOnly"@ { 46 } else if s == "writeOnly"@ { 47 } else if s == "x-a"@ { 48 } else if s == "a"@ { 49 } else if s == "b"@ { 50 } else if s == "c"@ { 51 } else if s == "d"@ { 52 } else if s == "t"@ { 53 } else if s == "firstName"@ { 54 } else if s == "x-y"@ { 55 } else if s == "out"@ { 56 } else if s == "in"@ { 57 } else if s == "field_one"@ { 58 } else if s == "fieldOne"@ { 59 } else if s == "two"@ { 60 } else if s == "One"@ { 61 } else if s == "2"@ { 62 } else if s == "Unit"@ { 63 } else if s == "New"@ { 64 } else if s == "Tup"@ { 65 } else if s == "Rec"@ { 66 } else if s == "Gone"@ { 67 } else if s == "In"@ { 68 } else if s == "Out"@ { 69 } else if s == "U"@ { 70 } else if s == "V"@ { 71 } else if s == "first_unit"@ { 72 } else if s == "new"@ { 73 } else if s == "tup"@ { 74 } else if s == "rec"@ { 75 } else if s == "gone"@ { 76 } else if s == "Ok"@ { 77 } else if s == "Err"@ { 78 } else if s == "Included"@ { 79 } else if s == "Excluded"@ { 80 } else if s == "Unbounded"@ { 81 } else if s == "start"@ { 82 } else if s == "end"@ { 83 } else if s == "secs"@ { 84 } else if s == "nanos"@ { 85 } else if s == "secs_since_epoch"@ { 86 } else if s == "nanos_since_epoch"@ { 87 } else if s == "Unix"@ { 88 } else if s == "Windows"@ { 89 } else if s == "Left"@ { 90 } else if s == "Right"@ { 91 } else if s == "Mon"@ { 92 } else if s == "Tue"@ { 93 } else if s == "Wed"@ { 94 } else if s == "Thu"@ { 95 } else if s == "Fri"@ { 96 } else if s == "Sat"@ { 97 } else if s == "Sun"@ { 98 } else if s == "FIRST-NAME"@ { 99 } else if s == "first-unit"@ { 100 } else if s == "first_name"@ { 101 } else if s == "A"@ { 102 } else if s == "F"@ { 103 } else if s == "First"@ { 104 } else if s == "Second"@ { 105 } else if s == "Half"@ { 106 } else { -1 }
}
pub proof fn lemma_dnames()
  ensures
    did("not"@) == 0,
    did("contains"@) == 1,
    did("additionalProperties"@) == 2,
    did("propertyNames"@) == 3,
    did("additionalItems"@) == 4,
    did("unevaluatedProperties"@) == 5,
    did("unevaluatedItems"@) == 6,
    did("contentSchema"@) == 7,
    did("allOf"@) == 8,
    did("anyOf"@) == 9,
    did("oneOf"@) == 10,
    did("prefixItems"@) == 11,
    did("items"@) == 12,
    did("properties"@) == 13,
    did("patternProperties"@) == 14,
    did("dependentSchemas"@) == 15,
    did("$defs"@) == 16,
    did("definitions"@) == 17,
    did("$ref"@) == 18,
    did("$schema"@) == 19,
    did("type"@) == 20,
    did("format"@) == 21,
    did("enum"@) == 22,
    did("const"@) == 23,
    did("examples"@) == 24,
    did("default"@) == 25,
    did("nullable"@) == 26,
    did("required"@) == 27,
    did("title"@) == 28,
    did("description"@) == 29,
    did("null"@) == 30,
    did("string"@) == 31,
    did("object"@) == 32,
    did("array"@) == 33,
    did("number"@) == 34,
    did("integer"@) == 35,
    did("boolean"@) == 36,
    did("pattern"@) == 37,
    did("minItems"@) == 38,
    did("maxItems"@) == 39,
    did("minimum"@) == 40,
    did("maximum"@) == 41,
    did("uniqueItems"@) == 42,
    did("minLength"@) == 43,
    did("maxLength"@) == 44,
    did("deprecated"@) == 45,
    did("readOnly"@) == 46,
    did("writeOnly"@) == 47,
    did("x-a"@) == 48,
    did("a"@) == 49,
    did("b"@) == 50,
    did("c"@) == 51,
    did("d"@) == 52,
    did("t"@) == 53,
    did("firstName"@) == 54,
    did("x-y"@) == 55,
    did("out"@) == 56,
    did("in"@) == 57,
    did("field_one"@) == 58,
    did("fieldOne"@) == 59,
    did("two"@) == 60,
    did("One"@) == 61,
    did("2"@) == 62,
    did("Unit"@) == 63,
    did("New"@) == 64,
    did("Tup"@) == 65,
    did("Rec"@) == 66,
    did("Gone"@) == 67,
    did("In"@) == 68,
    did("Out"@) == 69,
    did("U"@) == 70,
    did("V"@) == 71,
    did("first_unit"@) == 72,
    did("new"@) == 73,
    did("tup"@) == 74,
    did("rec"@) == 75,
    did("gone"@) == 76,
    did("Ok"@) == 77,
    did("Err"@) == 78,
    did("Included"@) == 79,
    did("Excluded"@) == 80,
    did("Unbounded"@) == 81,
    did("start"@) == 82,
    did("end"@) == 83,
    did("secs"@) == 84,
    did("nanos"@) == 85,
    did("secs_since_epoch"@) == 86,
    did("nanos_since_epoch"@) == 87,
    did("Unix"@) == 88,
    did("Windows"@) == 89,
    did("Left"@) == 90,
    did("Right"@) == 91,
    did("Mon"@) == 92,
    did("Tue"@) == 93,
    did("Wed"@) == 94,
    did("Thu"@) == 95,
    did("Fri"@) == 96,
    did("Sat"@) == 97,
    did("Sun"@) == 98,
    did("FIRST-NAME"@) == 99,
    did("first-unit"@) == 100,
    did("first_name"@) == 101,
    did("A"@) == 102,
    did("F"@) == 103,
    did("First"@) == 104,
    did("Second"@) == 105,
    did("Half"@) == 106,
{
  reveal_strlit("not"); reveal_strlit("contains"); reveal_strlit("additionalProperties"); reveal_strlit("propertyNames"); reveal_strlit("additionalItems"); reveal_strlit("unevaluatedProperties"); reveal_strlit("unevaluatedItems"); reveal_strlit("contentSchema"); reveal_strlit("allOf"); reveal_strlit("anyOf"); reveal_strlit("oneOf"); reveal_strlit("prefixItems"); reveal_strlit("items"); reveal_strlit("properties"); reveal_strlit("patternProperties"); reveal_strlit("dependentSchemas"); reveal_strlit("$defs"); reveal_strlit("definitions"); reveal_strlit("$ref"); reveal_strlit("$schema"); reveal_strlit("type"); reveal_strlit("format"); reveal_strlit("enum"); reveal_strlit("const"); reveal_strlit("examples"); reveal_strlit("default"); reveal_strlit("nullable"); reveal_strlit("required"); reveal_strlit("title"); reveal_strlit("description"); reveal_strlit("null"); reveal_strlit("string"); reveal_strlit("object"); reveal_strlit("array"); reveal_strlit("number"); reveal_strlit("integer"); reveal_strlit("boolean"); reveal_strlit("pattern"); reveal_strlit("minItems"); reveal_strlit("maxItems"); reveal_strlit("minimum"); reveal_strlit("maximum"); reveal_strlit("uniqueItems"); reveal_strlit("minLength"); reveal_strlit("maxLength"); reveal_strlit("deprecated"); reveal_strlit("readOnly"); reveal_strlit("writeOnly"); reveal_strlit("x-a"); reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("c"); reveal_strlit("d"); reveal_strlit("t"); reveal_strlit("firstName"); reveal_strlit("x-y"); reveal_strlit("out"); reveal_strlit("in"); reveal_strlit("field_one"); reveal_strlit("fieldOne"); reveal_strlit("two"); reveal_strlit("One"); reveal_strlit("2"); reveal_strlit("Unit"); reveal_strlit("New"); reveal_strlit("Tup"); reveal_strlit("Rec"); reveal_strlit("Gone"); reveal_strlit("In"); reveal_strlit("Out"); reveal_strlit("U"); reveal_strlit("V"); reveal_strlit("first_unit"); reveal_strlit("new"); reveal_strlit("tup"); reveal_strlit("rec"); reveal_strlit("gone"); reveal_strlit("Ok"); reveal_strlit("Err"); reveal_strlit("Included"); reveal_strlit("Excluded"); reveal_strlit("Unbounded"); reveal_strlit("start"); reveal_strlit("end"); reveal_strlit("secs"); reveal_strlit("nanos"); reveal_strlit("secs_since_epoch"); reveal_strlit("nanos_since_epoch"); reveal_strlit("Unix"); reveal_strlit("Windows"); reveal_strlit("Left"); reveal_strlit("Right"); reveal_strlit("Mon"); reveal_strlit("Tue"); reveal_strlit("Wed"); reveal_strlit("Thu"); reveal_strlit("Fri"); reveal_strlit("Sat"); reveal_strlit("Sun"); reveal_strlit("FIRST-NAME"); reveal_strlit("first-unit"); reveal_strlit("first_name"); reveal_strlit("A"); reveal_strlit("F"); reveal_strlit("First"); reveal_strlit("Second"); reveal_strlit("Half");
  assert("contentSchema"@[0] != "propertyNames"@[0]);
  assert("anyOf"@[1] != "allOf"@[1]);
  assert("oneOf"@[0] != "allOf"@[0]);
  assert("oneOf"@[0] != "anyOf"@[0]);
  assert("items"@[0] != "allOf"@[0]);
  assert("items"@[0] != "anyOf"@[0]);
  assert("items"@[0] != "oneOf"@[0]);
  assert("dependentSchemas"@[0] != "unevaluatedItems"@[0]);
  assert("$defs"@[0] != "allOf"@[0]);
  assert("$defs"@[0] != "anyOf"@[0]);
  assert("$defs"@[0] != "oneOf"@[0]);
  assert("$defs"@[0] != "items"@[0]);
  assert("definitions"@[0] != "prefixItems"@[0]);
  assert("type"@[0] != "$ref"@[0]);
  assert("enum"@[0] != "$ref"@[0]);
  assert("enum"@[0] != "type"@[0]);
  assert("const"@[0] != "allOf"@[0]);
  assert("const"@[0] != "anyOf"@[0]);
  assert("const"@[0] != "oneOf"@[0]);
  assert("const"@[0] != "items"@[0]);
  assert("const"@[0] != "$defs"@[0]);
  assert("examples"@[0] != "contains"@[0]);
  assert("default"@[0] != "$schema"@[0]);
  assert("nullable"@[0] != "contains"@[0]);
  assert("nullable"@[0] != "examples"@[0]);
  assert("required"@[0] != "contains"@[0]);
  assert("required"@[0] != "examples"@[0]);
  assert("required"@[0] != "nullable"@[0]);
  assert("title"@[0] != "allOf"@[0]);
  assert("title"@[0] != "anyOf"@[0]);
  assert("title"@[0] != "oneOf"@[0]);
  assert("title"@[0] != "items"@[0]);
  assert("title"@[0] != "$defs"@[0]);
  assert("title"@[0] != "const"@[0]);
  assert("description"@[0] != "prefixItems"@[0]);
  assert("description"@[2] != "definitions"@[2]);
  assert("null"@[0] != "$ref"@[0]);
  assert("null"@[0] != "type"@[0]);
  assert("null"@[0] != "enum"@[0]);
  assert("string"@[0] != "format"@[0]);
  assert("object"@[0] != "format"@[0]);
  assert("object"@[0] != "string"@[0]);
  assert("array"@[1] != "allOf"@[1]);
  assert("array"@[1] != "anyOf"@[1]);
  assert("array"@[0] != "oneOf"@[0]);
  assert("array"@[0] != "items"@[0]);
  assert("array"@[0] != "$defs"@[0]);
  assert("array"@[0] != "const"@[0]);
  assert("array"@[0] != "title"@[0]);
  assert("number"@[0] != "format"@[0]);
  assert("number"@[0] != "string"@[0]);
  assert("number"@[0] != "object"@[0]);
  assert("integer"@[0] != "$schema"@[0]);
  assert("integer"@[0] != "default"@[0]);
  assert("boolean"@[0] != "$schema"@[0]);
  assert("boolean"@[0] != "default"@[0]);
  assert("boolean"@[0] != "integer"@[0]);
  assert("pattern"@[0] != "$schema"@[0]);
  assert("pattern"@[0] != "default"@[0]);
  assert("pattern"@[0] != "integer"@[0]);
  assert("pattern"@[0] != "boolean"@[0]);
  assert("minItems"@[0] != "contains"@[0]);
  assert("minItems"@[0] != "examples"@[0]);
  assert("minItems"@[0] != "nullable"@[0]);
  assert("minItems"@[0] != "required"@[0]);
  assert("maxItems"@[0] != "contains"@[0]);
  assert("maxItems"@[0] != "examples"@[0]);
  assert("maxItems"@[0] != "nullable"@[0]);
  assert("maxItems"@[0] != "required"@[0]);
  assert("maxItems"@[1] != "minItems"@[1]);
  assert("minimum"@[0] != "$schema"@[0]);
  assert("minimum"@[0] != "default"@[0]);
  assert("minimum"@[0] != "integer"@[0]);
  assert("minimum"@[0] != "boolean"@[0]);
  assert("minimum"@[0] != "pattern"@[0]);
  assert("maximum"@[0] != "$schema"@[0]);
  assert("maximum"@[0] != "default"@[0]);
  assert("maximum"@[0] != "integer"@[0]);
  assert("maximum"@[0] != "boolean"@[0]);
  assert("maximum"@[0] != "pattern"@[0]);
  assert("maximum"@[1] != "minimum"@[1]);
  assert("uniqueItems"@[0] != "prefixItems"@[0]);
  assert("uniqueItems"@[0] != "definitions"@[0]);
  assert("uniqueItems"@[0] != "description"@[0]);
  assert("maxLength"@[1] != "minLength"@[1]);
  assert("deprecated"@[0] != "properties"@[0]);
  assert("readOnly"@[0] != "contains"@[0]);
  assert("readOnly"@[0] != "examples"@[0]);
  assert("readOnly"@[0] != "nullable"@[0]);
  assert("readOnly"@[2] != "required"@[2]);
  assert("readOnly"@[0] != "minItems"@[0]);
  assert("readOnly"@[0] != "maxItems"@[0]);
  assert("writeOnly"@[0] != "minLength"@[0]);
  assert("writeOnly"@[0] != "maxLength"@[0]);
  assert("x-a"@[0] != "not"@[0]);
  assert("b"@[0] != "a"@[0]);
  assert("c"@[0] != "a"@[0]);
  assert("c"@[0] != "b"@[0]);
  assert("d"@[0] != "a"@[0]);
  assert("d"@[0] != "b"@[0]);
  assert("d"@[0] != "c"@[0]);
  assert("t"@[0] != "a"@[0]);
  assert("t"@[0] != "b"@[0]);
  assert("t"@[0] != "c"@[0]);
  assert("t"@[0] != "d"@[0]);
  assert("firstName"@[0] != "minLength"@[0]);
  assert("firstName"@[0] != "maxLength"@[0]);
  assert("firstName"@[0] != "writeOnly"@[0]);
  assert("x-y"@[0] != "not"@[0]);
  assert("x-y"@[2] != "x-a"@[2]);
  assert("out"@[0] != "not"@[0]);
  assert("out"@[0] != "x-a"@[0]);
  assert("out"@[0] != "x-y"@[0]);
  assert("field_one"@[0] != "minLength"@[0]);
  assert("field_one"@[0] != "maxLength"@[0]);
  assert("field_one"@[0] != "writeOnly"@[0]);
  assert("field_one"@[2] != "firstName"@[2]);
  assert("fieldOne"@[0] != "contains"@[0]);
  assert("fieldOne"@[0] != "examples"@[0]);
  assert("fieldOne"@[0] != "nullable"@[0]);
  assert("fieldOne"@[0] != "required"@[0]);
  assert("fieldOne"@[0] != "minItems"@[0]);
  assert("fieldOne"@[0] != "maxItems"@[0]);
  assert("fieldOne"@[0] != "readOnly"@[0]);
  assert("two"@[0] != "not"@[0]);
  assert("two"@[0] != "x-a"@[0]);
  assert("two"@[0] != "x-y"@[0]);
  assert("two"@[0] != "out"@[0]);
  assert("One"@[0] != "not"@[0]);
  assert("One"@[0] != "x-a"@[0]);
  assert("One"@[0] != "x-y"@[0]);
  assert("One"@[0] != "out"@[0]);
  assert("One"@[0] != "two"@[0]);
  assert("2"@[0] != "a"@[0]);
  assert("2"@[0] != "b"@[0]);
  assert("2"@[0] != "c"@[0]);
  assert("2"@[0] != "d"@[0]);
  assert("2"@[0] != "t"@[0]);
  assert("Unit"@[0] != "$ref"@[0]);
  assert("Unit"@[0] != "type"@[0]);
  assert("Unit"@[0] != "enum"@[0]);
  assert("Unit"@[0] != "null"@[0]);
  assert("New"@[0] != "not"@[0]);
  assert("New"@[0] != "x-a"@[0]);
  assert("New"@[0] != "x-y"@[0]);
  assert("New"@[0] != "out"@[0]);
  assert("New"@[0] != "two"@[0]);
  assert("New"@[0] != "One"@[0]);
  assert("Tup"@[0] != "not"@[0]);
  assert("Tup"@[0] != "x-a"@[0]);
  assert("Tup"@[0] != "x-y"@[0]);
  assert("Tup"@[0] != "out"@[0]);
  assert("Tup"@[0] != "two"@[0]);
  assert("Tup"@[0] != "One"@[0]);
  assert("Tup"@[0] != "New"@[0]);
  assert("Rec"@[0] != "not"@[0]);
  assert("Rec"@[0] != "x-a"@[0]);
  assert("Rec"@[0] != "x-y"@[0]);
  assert("Rec"@[0] != "out"@[0]);
  assert("Rec"@[0] != "two"@[0]);
  assert("Rec"@[0] != "One"@[0]);
  assert("Rec"@[0] != "New"@[0]);
  assert("Rec"@[0] != "Tup"@[0]);
  assert("Gone"@[0] != "$ref"@[0]);
  assert("Gone"@[0] != "type"@[0]);
  assert("Gone"@[0] != "enum"@[0]);
  assert("Gone"@[0] != "null"@[0]);
  assert("Gone"@[0] != "Unit"@[0]);
  assert("In"@[0] != "in"@[0]);
  assert("Out"@[0] != "not"@[0]);
  assert("Out"@[0] != "x-a"@[0]);
  assert("Out"@[0] != "x-y"@[0]);
  assert("Out"@[0] != "out"@[0]);
  assert("Out"@[0] != "two"@[0]);
  assert("Out"@[1] != "One"@[1]);
  assert("Out"@[0] != "New"@[0]);
  assert("Out"@[0] != "Tup"@[0]);
  assert("Out"@[0] != "Rec"@[0]);
  assert("U"@[0] != "a"@[0]);
  assert("U"@[0] != "b"@[0]);
  assert("U"@[0] != "c"@[0]);
  assert("U"@[0] != "d"@[0]);
  assert("U"@[0] != "t"@[0]);
  assert("U"@[0] != "2"@[0]);
  assert("V"@[0] != "a"@[0]);
  assert("V"@[0] != "b"@[0]);
  assert("V"@[0] != "c"@[0]);
  assert("V"@[0] != "d"@[0]);
  assert("V"@[0] != "t"@[0]);
  assert("V"@[0] != "2"@[0]);
  assert("V"@[0] != "U"@[0]);
  assert("first_unit"@[0] != "properties"@[0]);
  assert("first_unit"@[0] != "deprecated"@[0]);
  assert("new"@[1] != "not"@[1]);
  assert("new"@[0] != "x-a"@[0]);
  assert("new"@[0] != "x-y"@[0]);
  assert("new"@[0] != "out"@[0]);
  assert("new"@[0] != "two"@[0]);
  assert("new"@[0] != "One"@[0]);
  assert("new"@[0] != "New"@[0]);
  assert("new"@[0] != "Tup"@[0]);
  assert("new"@[0] != "Rec"@[0]);
  assert("new"@[0] != "Out"@[0]);
  assert("tup"@[0] != "not"@[0]);
  assert("tup"@[0] != "x-a"@[0]);
  assert("tup"@[0] != "x-y"@[0]);
  assert("tup"@[0] != "out"@[0]);
  assert("tup"@[1] != "two"@[1]);
  assert("tup"@[0] != "One"@[0]);
  assert("tup"@[0] != "New"@[0]);
  assert("tup"@[0] != "Tup"@[0]);
  assert("tup"@[0] != "Rec"@[0]);
  assert("tup"@[0] != "Out"@[0]);
  assert("tup"@[0] != "new"@[0]);
  assert("rec"@[0] != "not"@[0]);
  assert("rec"@[0] != "x-a"@[0]);
  assert("rec"@[0] != "x-y"@[0]);
  assert("rec"@[0] != "out"@[0]);
  assert("rec"@[0] != "two"@[0]);
  assert("rec"@[0] != "One"@[0]);
  assert("rec"@[0] != "New"@[0]);
  assert("rec"@[0] != "Tup"@[0]);
  assert("rec"@[0] != "Rec"@[0]);
  assert("rec"@[0] != "Out"@[0]);
  assert("rec"@[0] != "new"@[0]);
  assert("rec"@[0] != "tup"@[0]);
  assert("gone"@[0] != "$ref"@[0]);
  assert("gone"@[0] != "type"@[0]);
  assert("gone"@[0] != "enum"@[0]);
  assert("gone"@[0] != "null"@[0]);
  assert("gone"@[0] != "Unit"@[0]);
  assert("gone"@[0] != "Gone"@[0]);
  assert("Ok"@[0] != "in"@[0]);
  assert("Ok"@[0] != "In"@[0]);
  assert("Err"@[0] != "not"@[0]);
  assert("Err"@[0] != "x-a"@[0]);
  assert("Err"@[0] != "x-y"@[0]);
  assert("Err"@[0] != "out"@[0]);
  assert("Err"@[0] != "two"@[0]);
  assert("Err"@[0] != "One"@[0]);
  assert("Err"@[0] != "New"@[0]);
  assert("Err"@[0] != "Tup"@[0]);
  assert("Err"@[0] != "Rec"@[0]);
  assert("Err"@[0] != "Out"@[0]);
  assert("Err"@[0] != "new"@[0]);
  assert("Err"@[0] != "tup"@[0]);
  assert("Err"@[0] != "rec"@[0]);
  assert("Included"@[0] != "contains"@[0]);
  assert("Included"@[0] != "examples"@[0]);
  assert("Included"@[0] != "nullable"@[0]);
  assert("Included"@[0] != "required"@[0]);
  assert("Included"@[0] != "minItems"@[0]);
  assert("Included"@[0] != "maxItems"@[0]);
  assert("Included"@[0] != "readOnly"@[0]);
  assert("Included"@[0] != "fieldOne"@[0]);
  assert("Excluded"@[0] != "contains"@[0]);
  assert("Excluded"@[0] != "examples"@[0]);
  assert("Excluded"@[0] != "nullable"@[0]);
  assert("Excluded"@[0] != "required"@[0]);
  assert("Excluded"@[0] != "minItems"@[0]);
  assert("Excluded"@[0] != "maxItems"@[0]);
  assert("Excluded"@[0] != "readOnly"@[0]);
  assert("Excluded"@[0] != "fieldOne"@[0]);
  assert("Excluded"@[0] != "Included"@[0]);
  assert("Unbounded"@[0] != "minLength"@[0]);
  assert("Unbounded"@[0] != "maxLength"@[0]);
  assert("Unbounded"@[0] != "writeOnly"@[0]);
  assert("Unbounded"@[0] != "firstName"@[0]);
  assert("Unbounded"@[0] != "field_one"@[0]);
  assert("start"@[0] != "allOf"@[0]);
  assert("start"@[0] != "anyOf"@[0]);
  assert("start"@[0] != "oneOf"@[0]);
  assert("start"@[0] != "items"@[0]);
  assert("start"@[0] != "$defs"@[0]);
  assert("start"@[0] != "const"@[0]);
  assert("start"@[0] != "title"@[0]);
  assert("start"@[0] != "array"@[0]);
  assert("end"@[0] != "not"@[0]);
  assert("end"@[0] != "x-a"@[0]);
  assert("end"@[0] != "x-y"@[0]);
  assert("end"@[0] != "out"@[0]);
  assert("end"@[0] != "two"@[0]);
  assert("end"@[0] != "One"@[0]);
  assert("end"@[0] != "New"@[0]);
  assert("end"@[0] != "Tup"@[0]);
  assert("end"@[0] != "Rec"@[0]);
  assert("end"@[0] != "Out"@[0]);
  assert("end"@[0] != "new"@[0]);
  assert("end"@[0] != "tup"@[0]);
  assert("end"@[0] != "rec"@[0]);
  assert("end"@[0] != "Err"@[0]);
  assert("secs"@[0] != "$ref"@[0]);
  assert("secs"@[0] != "type"@[0]);
  assert("secs"@[0] != "enum"@[0]);
  assert("secs"@[0] != "null"@[0]);
  assert("secs"@[0] != "Unit"@[0]);
  assert("secs"@[0] != "Gone"@[0]);
  assert("secs"@[0] != "gone"@[0]);
  assert("nanos"@[0] != "allOf"@[0]);
  assert("nanos"@[0] != "anyOf"@[0]);
  assert("nanos"@[0] != "oneOf"@[0]);
  assert("nanos"@[0] != "items"@[0]);
  assert("nanos"@[0] != "$defs"@[0]);
  assert("nanos"@[0] != "const"@[0]);
  assert("nanos"@[0] != "title"@[0]);
  assert("nanos"@[0] != "array"@[0]);
  assert("nanos"@[0] != "start"@[0]);
  assert("secs_since_epoch"@[0] != "unevaluatedItems"@[0]);
  assert("secs_since_epoch"@[0] != "dependentSchemas"@[0]);
  assert("nanos_since_epoch"@[0] != "patternProperties"@[0]);
  assert("Unix"@[0] != "$ref"@[0]);
  assert("Unix"@[0] != "type"@[0]);
  assert("Unix"@[0] != "enum"@[0]);
  assert("Unix"@[0] != "null"@[0]);
  assert("Unix"@[3] != "Unit"@[3]);
  assert("Unix"@[0] != "Gone"@[0]);
  assert("Unix"@[0] != "gone"@[0]);
  assert("Unix"@[0] != "secs"@[0]);
  assert("Windows"@[0] != "$schema"@[0]);
  assert("Windows"@[0] != "default"@[0]);
  assert("Windows"@[0] != "integer"@[0]);
  assert("Windows"@[0] != "boolean"@[0]);
  assert("Windows"@[0] != "pattern"@[0]);
  assert("Windows"@[0] != "minimum"@[0]);
  assert("Windows"@[0] != "maximum"@[0]);
  assert("Left"@[0] != "$ref"@[0]);
  assert("Left"@[0] != "type"@[0]);
  assert("Left"@[0] != "enum"@[0]);
  assert("Left"@[0] != "null"@[0]);
  assert("Left"@[0] != "Unit"@[0]);
  assert("Left"@[0] != "Gone"@[0]);
  assert("Left"@[0] != "gone"@[0]);
  assert("Left"@[0] != "secs"@[0]);
  assert("Left"@[0] != "Unix"@[0]);
  assert("Right"@[0] != "allOf"@[0]);
  assert("Right"@[0] != "anyOf"@[0]);
  assert("Right"@[0] != "oneOf"@[0]);
  assert("Right"@[0] != "items"@[0]);
  assert("Right"@[0] != "$defs"@[0]);
  assert("Right"@[0] != "const"@[0]);
  assert("Right"@[0] != "title"@[0]);
  assert("Right"@[0] != "array"@[0]);
  assert("Right"@[0] != "start"@[0]);
  assert("Right"@[0] != "nanos"@[0]);
  assert("Mon"@[0] != "not"@[0]);
  assert("Mon"@[0] != "x-a"@[0]);
  assert("Mon"@[0] != "x-y"@[0]);
  assert("Mon"@[0] != "out"@[0]);
  assert("Mon"@[0] != "two"@[0]);
  assert("Mon"@[0] != "One"@[0]);
  assert("Mon"@[0] != "New"@[0]);
  assert("Mon"@[0] != "Tup"@[0]);
  assert("Mon"@[0] != "Rec"@[0]);
  assert("Mon"@[0] != "Out"@[0]);
  assert("Mon"@[0] != "new"@[0]);
  assert("Mon"@[0] != "tup"@[0]);
  assert("Mon"@[0] != "rec"@[0]);
  assert("Mon"@[0] != "Err"@[0]);
  assert("Mon"@[0] != "end"@[0]);
  assert("Tue"@[0] != "not"@[0]);
  assert("Tue"@[0] != "x-a"@[0]);
  assert("Tue"@[0] != "x-y"@[0]);
  assert("Tue"@[0] != "out"@[0]);
  assert("Tue"@[0] != "two"@[0]);
  assert("Tue"@[0] != "One"@[0]);
  assert("Tue"@[0] != "New"@[0]);
  assert("Tue"@[2] != "Tup"@[2]);
  assert("Tue"@[0] != "Rec"@[0]);
  assert("Tue"@[0] != "Out"@[0]);
  assert("Tue"@[0] != "new"@[0]);
  assert("Tue"@[0] != "tup"@[0]);
  assert("Tue"@[0] != "rec"@[0]);
  assert("Tue"@[0] != "Err"@[0]);
  assert("Tue"@[0] != "end"@[0]);
  assert("Tue"@[0] != "Mon"@[0]);
  assert("Wed"@[0] != "not"@[0]);
  assert("Wed"@[0] != "x-a"@[0]);
  assert("Wed"@[0] != "x-y"@[0]);
  assert("Wed"@[0] != "out"@[0]);
  assert("Wed"@[0] != "two"@[0]);
  assert("Wed"@[0] != "One"@[0]);
  assert("Wed"@[0] != "New"@[0]);
  assert("Wed"@[0] != "Tup"@[0]);
  assert("Wed"@[0] != "Rec"@[0]);
  assert("Wed"@[0] != "Out"@[0]);
  assert("Wed"@[0] != "new"@[0]);
  assert("Wed"@[0] != "tup"@[0]);
  assert("Wed"@[0] != "rec"@[0]);
  assert("Wed"@[0] != "Err"@[0]);
  assert("Wed"@[0] != "end"@[0]);
  assert("Wed"@[0] != "Mon"@[0]);
  assert("Wed"@[0] != "Tue"@[0]);
  assert("Thu"@[0] != "not"@[0]);
  assert("Thu"@[0] != "x-a"@[0]);
  assert("Thu"@[0] != "x-y"@[0]);
  assert("Thu"@[0] != "out"@[0]);
  assert("Thu"@[0] != "two"@[0]);
  assert("Thu"@[0] != "One"@[0]);
  assert("Thu"@[0] != "New"@[0]);
  assert("Thu"@[1] != "Tup"@[1]);
  assert("Thu"@[0] != "Rec"@[0]);
  assert("Thu"@[0] != "Out"@[0]);
  assert("Thu"@[0] != "new"@[0]);
  assert("Thu"@[0] != "tup"@[0]);
  assert("Thu"@[0] != "rec"@[0]);
  assert("Thu"@[0] != "Err"@[0]);
  assert("Thu"@[0] != "end"@[0]);
  assert("Thu"@[0] != "Mon"@[0]);
  assert("Thu"@[1] != "Tue"@[1]);
  assert("Thu"@[0] != "Wed"@[0]);
  assert("Fri"@[0] != "not"@[0]);
  assert("Fri"@[0] != "x-a"@[0]);
  assert("Fri"@[0] != "x-y"@[0]);
  assert("Fri"@[0] != "out"@[0]);
  assert("Fri"@[0] != "two"@[0]);
  assert("Fri"@[0] != "One"@[0]);
  assert("Fri"@[0] != "New"@[0]);
  assert("Fri"@[0] != "Tup"@[0]);
  assert("Fri"@[0] != "Rec"@[0]);
  assert("Fri"@[0] != "Out"@[0]);
  assert("Fri"@[0] != "new"@[0]);
  assert("Fri"@[0] != "tup"@[0]);
  assert("Fri"@[0] != "rec"@[0]);
  assert("Fri"@[0] != "Err"@[0]);
  assert("Fri"@[0] != "end"@[0]);
  assert("Fri"@[0] != "Mon"@[0]);
  assert("Fri"@[0] != "Tue"@[0]);
  assert("Fri"@[0] != "Wed"@[0]);
  assert("Fri"@[0] != "Thu"@[0]);
  assert("Sat"@[0] != "not"@[0]);
  assert("Sat"@[0] != "x-a"@[0]);
  assert("Sat"@[0] != "x-y"@[0]);
  assert("Sat"@[0] != "out"@[0]);
  assert("Sat"@[0] != "two"@[0]);
  assert("Sat"@[0] != "One"@[0]);
  assert("Sat"@[0] != "New"@[0]);
  assert("Sat"@[0] != "Tup"@[0]);
  assert("Sat"@[0] != "Rec"@[0]);
  assert("Sat"@[0] != "Out"@[0]);
  assert("Sat"@[0] != "new"@[0]);
  assert("Sat"@[0] != "tup"@[0]);
  assert("Sat"@[0] != "rec"@[0]);
  assert("Sat"@[0] != "Err"@[0]);
  assert("Sat"@[0] != "end"@[0]);
  assert("Sat"@[0] != "Mon"@[0]);
  assert("Sat"@[0] != "Tue"@[0]);
  assert("Sat"@[0] != "Wed"@[0]);
  assert("Sat"@[0] != "Thu"@[0]);
  assert("Sat"@[0] != "Fri"@[0]);
  assert("Sun"@[0] != "not"@[0]);
  assert("Sun"@[0] != "x-a"@[0]);
  assert("Sun"@[0] != "x-y"@[0]);
  assert("Sun"@[0] != "out"@[0]);
  assert("Sun"@[0] != "two"@[0]);
  assert("Sun"@[0] != "One"@[0]);
  assert("Sun"@[0] != "New"@[0]);
  assert("Sun"@[0] != "Tup"@[0]);
  assert("Sun"@[0] != "Rec"@[0]);
  assert("Sun"@[0] != "Out"@[0]);
  assert("Sun"@[0] != "new"@[0]);
  assert("Sun"@[0] != "tup"@[0]);
  assert("Sun"@[0] != "rec"@[0]);
  assert("Sun"@[0] != "Err"@[0]);
  assert("Sun"@[0] != "end"@[0]);
  assert("Sun"@[0] != "Mon"@[0]);
  assert("Sun"@[0] != "Tue"@[0]);
  assert("Sun"@[0] != "Wed"@[0]);
  assert("Sun"@[0] != "Thu"@[0]);
  assert("Sun"@[0] != "Fri"@[0]);
  assert("Sun"@[1] != "Sat"@[1]);
  assert("FIRST-NAME"@[0] != "properties"@[0]);
  assert("FIRST-NAME"@[0] != "deprecated"@[0]);
  assert("FIRST-NAME"@[0] != "first_unit"@[0]);
  assert("first-unit"@[0] != "properties"@[0]);
  assert("first-unit"@[0] != "deprecated"@[0]);
  assert("first-unit"@[5] != "first_unit"@[5]);
  assert("first-unit"@[0] != "FIRST-NAME"@[0]);
  assert("first_name"@[0] != "properties"@[0]);
  assert("first_name"@[0] != "deprecated"@[0]);
  assert("first_name"@[6] != "first_unit"@[6]);
  assert("first_name"@[0] != "FIRST-NAME"@[0]);
  assert("first_name"@[5] != "first-unit"@[5]);
  assert("A"@[0] != "a"@[0]);
  assert("A"@[0] != "b"@[0]);
  assert("A"@[0] != "c"@[0]);
  assert("A"@[0] != "d"@[0]);
  assert("A"@[0] != "t"@[0]);
  assert("A"@[0] != "2"@[0]);
  assert("A"@[0] != "U"@[0]);
  assert("A"@[0] != "V"@[0]);
  assert("F"@[0] != "a"@[0]);
  assert("F"@[0] != "b"@[0]);
  assert("F"@[0] != "c"@[0]);
  assert("F"@[0] != "d"@[0]);
  assert("F"@[0] != "t"@[0]);
  assert("F"@[0] != "2"@[0]);
  assert("F"@[0] != "U"@[0]);
  assert("F"@[0] != "V"@[0]);
  assert("F"@[0] != "A"@[0]);
  assert("First"@[0] != "allOf"@[0]);
  assert("First"@[0] != "anyOf"@[0]);
  assert("First"@[0] != "oneOf"@[0]);
  assert("First"@[0] != "items"@[0]);
  assert("First"@[0] != "$defs"@[0]);
  assert("First"@[0] != "const"@[0]);
  assert("First"@[0] != "title"@[0]);
  assert("First"@[0] != "array"@[0]);
  assert("First"@[0] != "start"@[0]);
  assert("First"@[0] != "nanos"@[0]);
  assert("First"@[0] != "Right"@[0]);
  assert("Second"@[0] != "format"@[0]);
  assert("Second"@[0] != "string"@[0]);
  assert("Second"@[0] != "object"@[0]);
  assert("Second"@[0] != "number"@[0]);
  assert("Half"@[0] != "$ref"@[0]);
  assert("Half"@[0] != "type"@[0]);
  assert("Half"@[0] != "enum"@[0]);
  assert("Half"@[0] != "null"@[0]);
  assert("Half"@[0] != "Unit"@[0]);
  assert("Half"@[0] != "Gone"@[0]);
  assert("Half"@[0] != "gone"@[0]);
  assert("Half"@[0] != "secs"@[0]);
  assert("Half"@[0] != "Unix"@[0]);
  assert("Half"@[0] != "Left"@[0]);
}
