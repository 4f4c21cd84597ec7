#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
V = "include/valijson/"
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Draft 7 verdicts agree with the JSON Schema specification",
  "For every well-formed JSON Schema Draft 7 schema built from the validation keywords (type, enum, const, numeric, string, array and object assertions, boolean schemas, and the applicators properties/patternProperties/additionalProperties/propertyNames/dependencies/items/additionalItems/contains/allOf/anyOf/oneOf/not/if-then-else) and every JSON document, parsing the schema succeeds and validating under strong types returns true exactly when the specification says the document is valid. "
  "This includes how keywords combine and nest: keywords that do not apply to a value's type are ignored, integral floating point numbers count as integers, and numbers compare by value. "
  "The domain is JSON whose object keys are unique and whose numbers are exactly representable as IEEE doubles or have at most 15 significant decimal digits (multipleOf is judged on the decimal numbers as written).",
  ["inputs", "programs"], "all (schema, document) pairs in the stated domain; schemas nest to any depth and combine any keywords",
  "The JSON Schema Test Suite submodule is absent, so the keyword semantics are checked on a handful of hand-written documents only; no finite list of pairs covers keyword interactions (additionalProperties with patternProperties, additionalItems with items, nested applicators, boundary values).",
  [V+"validation_visitor.hpp", V+"schema_parser.hpp", V+"constraints/concrete_constraints.hpp", V+"subschema.hpp", V+"validator.hpp"],
  [("one visit() overload per constraint", V+"validation_visitor.hpp"), ("one make*Constraint() per keyword", V+"schema_parser.hpp")],
  ["Validator::validate return value"])

p("C02", "Draft 3 and Draft 4 modes follow their own drafts",
  "A schema parser created for Draft 3 or Draft 4 gives every schema of that draft the meaning that draft defines: boolean exclusiveMinimum/exclusiveMaximum beside minimum/maximum, and for Draft 3 divisibleBy, extends, boolean required in property schemas, string-valued dependencies, and type unions containing schemas and 'any'. "
  "For every such schema and every JSON document the strong-typed verdict equals the verdict that draft's specification defines. "
  "A keyword form that the selected draft does not define is never silently given another draft's boolean/number meaning: it is rejected with an exception or ignored (keywords that are newer than the draft may act as extensions).",
  ["inputs", "programs", "configurations"], "all (draft, schema, document) triples over the keywords each draft defines (Draft 3 'disallow' excluded: documented as unsupported)",
  "Existing tests parse almost nothing in Draft 3/4 mode; version switches are per-keyword branches whose combinations with nested applicators are not sampled.",
  [V+"schema_parser.hpp", V+"validation_visitor.hpp", V+"constraints/concrete_constraints.hpp"],
  [("switch (m_version) per keyword", V+"schema_parser.hpp")], ["Validator::validate return value", "SchemaParser::populateSchema exceptions"])

p("C03", "The verdict does not depend on the JSON library",
  "For every schema and JSON document, the strong-typed verdict is the same whichever supported JSON library (RapidJSON, nlohmann/json, JsonCpp, PicoJSON, Boost.JSON, Poco JSON, Qt JSON, QVariant) holds the schema and whichever holds the document, including when the two differ. "
  "The same holds for whether the schema is accepted or rejected. "
  "Libraries whose own value model loses information (JSON libraries storing all numbers as doubles, for instance) are only required to agree on documents they can represent.",
  ["inputs", "configurations"], "all schemas and documents representable in both libraries, over all ordered pairs of libraries",
  "Existing adapter tests check one array of ten numbers or strings per adapter and compare a few literals; they never validate the same generated document through every adapter pair.",
  [V+"adapters/", V+"internal/basic_adapter.hpp", V+"validation_visitor.hpp"],
  [("AdapterTraits / BasicAdapter facade", V+"internal/basic_adapter.hpp"), ("per-library Value classes", V+"adapters/")],
  ["Validator::validate return value per adapter pair"])

p("C04", "Asking for error details never changes the verdict",
  "For every schema and document, validating with a results object returns the same verdict as validating without one. "
  "When the document is invalid at least one error is recorded, and when it is valid none is. "
  "Errors are delivered in the order reported, each exactly once, and a results object already holding errors keeps them ahead of new ones.",
  ["inputs", "configurations"], "all (schema, document) pairs, strong and weak type modes, fresh and reused results objects",
  "Existing error tests compare the error list of a few fixed documents; the collecting and the fail-fast paths are separate branches in most keyword handlers and only agree by construction in each of them.",
  [V+"validation_visitor.hpp", V+"validation_results.hpp", V+"validator.hpp", V+"subschema.hpp"],
  [("apply vs applyStrict and m_results branches", V+"validation_visitor.hpp"), ("FIFO of errors", V+"validation_results.hpp")],
  ["Validator::validate return value", "ValidationResults::numErrors/popError"])

p("C05", "Reported error locations are real, correctly written and complete",
  "Every error reported for an invalid document carries a context and a JSON Pointer that denote the same existing location in that document, with the context starting at '<root>' and the pointer escaped according to RFC 6901, and that location is one at which some applied subschema really fails. "
  "Conversely, when results are collected, every location whose own keyword assertions fail under conjunctively applied schemas (properties, patternProperties, additionalProperties, items, additionalItems, allOf and nesting of these) is reported ('dependencies', 'then' and 'else' are not part of this obligation). ",
  ["inputs"], "all (schema, document) pairs, with property names containing any characters including '/', '~', brackets, digits and the empty name",
  "Existing tests check messages of one fixed schema file; whether a location is spurious or missing depends on which sibling assertions failed before it.",
  [V+"validation_visitor.hpp", V+"validation_results.hpp"],
  [("ValidationResults::Path pushed per nesting level", V+"validation_visitor.hpp"), ("pointer/context rendering", V+"validation_results.hpp")],
  ["ValidationResults::Error context, jsonPointer"])

p("C06", "Local references mean the schema they point at",
  "Replacing any subschema by a reference ({\"$ref\": \"#/...\"}) to an equal schema stored elsewhere in the same document - through any RFC 6901 path, any escaping or percent-encoding of it, chains of references, recursive references, and '#' - never changes any verdict, and siblings of $ref are ignored. "
  "A recursive schema parses in finite time and validates every finite document with the meaning of its unfolding. "
  "The same holds for references by name ('#name') and by $id, for schemas embedded under their own $id, and for Draft 3 'required' reached through a reference. A reference to a missing location is rejected with an exception, never silently accepted; '#/' is taken for the root.",
  ["inputs", "programs"], "all schemas, all placements and spellings of references (including keys containing '/', '~', '%' and the empty key), all documents",
  "Existing tests only cover one circular file and a few remote fetches; reuse of already-parsed subschemas by path is a global registry whose collisions depend on the whole schema.",
  [V+"schema_parser.hpp", V+"internal/json_pointer.hpp", V+"internal/json_reference.hpp", V+"schema_registry.hpp"],
  [("schema registry keyed by path", V+"schema_parser.hpp"), ("makeOrReuseSchema / resolveThenPopulateSchema", V+"schema_parser.hpp")],
  ["Validator::validate return value", "SchemaParser::populateSchema exceptions"],
  state=[("schemaRegistry", "path/URI -> already created subschema", V+"schema_parser.hpp")])

p("C07", "Remote references resolve to the right document and every document is freed",
  "When fetch and free callbacks are supplied, a reference to another document is resolved against the enclosing $id (or the document's own location) and means exactly the schema found there, so that a schema split over several documents gives the same verdicts as its single-document form. "
  "During one parse every successfully fetched document is handed to the free callback exactly once and only after its last use, also when fetching, resolving or parsing fails part-way or the fetch callback throws, and no URI is fetched twice. "
  "Without callbacks, or when a fetch yields nothing, a reference that needs another document is rejected with an exception, and a parser given only one of the callbacks rejects the call.",
  ["inputs", "fault_sequences", "configurations"], "all document graphs (including mutual references), all base URIs, all points at which a fetch returns null or throws or a referenced document is malformed",
  "Existing tests use a single remote schema with a counter; failure points and reference graphs are not explored.",
  [V+"schema_parser.hpp", V+"internal/uri.hpp", V+"internal/json_reference.hpp"],
  [("DocumentCache and its release on exit", V+"schema_parser.hpp"), ("resolveRelativeUri", V+"internal/uri.hpp")],
  ["fetchDoc/freeDoc call history", "Validator::validate return value"],
  state=[("docCache", "documents fetched during this parse, keyed by URI", V+"schema_parser.hpp")])

p("C08", "JSON Pointers resolve to exactly the designated value",
  "For every JSON document and every value in it, resolving the RFC 6901 pointer of that value (any combination of '~' escapes and percent-encoding) yields that value. "
  "A pointer whose tokens do not designate an existing member or element - missing member, index out of range, '-', a token that is not a decimal index, a step into a scalar, a malformed percent escape - is rejected with an exception; it never designates another value. "
  "Percent-encoded slashes inside a token and '~' followed by anything but 0 or 1 are left open. The lenient resolver treats empty tokens as absent; the strict resolver treats them as the empty member name.",
  ["inputs"], "all documents (member names of any content) and all pointers, valid or not, over several JSON libraries",
  "Existing tests use about fifteen literal pointers; token decoding order, index syntax and escapes form an unbounded input space.",
  [V+"internal/json_pointer.hpp"],
  [("extractReferenceToken / resolveJsonPointer(Strict)", V+"internal/json_pointer.hpp")], ["resolved adapter", "thrown exceptions"])

p("C09", "URI references resolve as RFC 3986 prescribes",
  "For every hierarchical base URI and every reference in the supported domain (as delimited by uri.md), resolution gives the target RFC 3986 section 5.2 gives: dot segments removed, query and fragment replaced as prescribed, absolute references and URNs kept verbatim. "
  "Classification of a string as absolute URI or URN, and the splitting of a reference into document URI and fragment pointer, agree with the grammar and lose nothing. "
  "No input string makes these functions crash or hang.",
  ["inputs"], "all base/reference pairs; the supported domain excludes the deviations uri.md documents",
  "Existing tests list some dozens of pairs; segment combinations, missing paths, queries containing '/' or '?', and dot-segment underflow are unbounded.",
  [V+"internal/uri.hpp", V+"internal/json_reference.hpp"],
  [("resolveRelativeUri, removeDotSegments", V+"internal/uri.hpp"), ("getJsonReferenceUri/Pointer", V+"internal/json_reference.hpp")], ["returned strings"])

p("C10", "Every adapter presents its JSON document faithfully",
  "For every JSON value held by any supported library, the adapter view is a faithful JSON value: exactly one of the six types null, boolean, number, string, array, object holds under strict typing (whether an integral number stored as floating point also counts as integer or double is left open), checked and converting accessors agree with the stored value, and size, iteration (forward, backward-and-forward, and advance by any in-range step) and lookup by name enumerate exactly the elements and members, each once, arrays in order. "
  "Lookup succeeds exactly for existing member names. "
  "An accessor used on a value of another type throws and never returns a made-up value.",
  ["inputs", "configurations"], "all JSON values representable in each library; every accessor of the adapter interface; loosely typed libraries (Property Tree, YAML) compared up to their documented string representation",
  "Existing adapter tests iterate one array/object of ten elements per library.",
  [V+"adapters/", V+"internal/basic_adapter.hpp", V+"internal/adapter.hpp"],
  [("Value/Array/Object/iterator classes per library", V+"adapters/"), ("BasicAdapter accessors", V+"internal/basic_adapter.hpp")], ["adapter accessors"])

p("C11", "JSON equality is value equality, across libraries and snapshots",
  "Strict comparison of two JSON values through any pair of adapters returns true exactly when they are the same JSON value: objects regardless of member order, arrays in order, numbers by numeric value whether stored as integer or floating point, and never across types. "
  "A frozen snapshot compares exactly like the value it was taken from, also through clones and after the original document is gone, so enum, const and uniqueItems use the same relation. "
  "Non-strict comparison is at least as permissive as strict comparison, and is symmetric for scalars.",
  ["inputs", "configurations"], "all pairs of JSON values over all pairs of libraries, frozen or live",
  "Existing tests compare a few scalars between adapters.",
  [V+"internal/basic_adapter.hpp", V+"internal/frozen_value.hpp", V+"adapters/"],
  [("BasicAdapter::equalTo", V+"internal/basic_adapter.hpp"), ("FrozenValue::equalTo per library", V+"adapters/")], ["equalTo results", "enum/const/uniqueItems verdicts"])

p("C12", "Weak typing only casts, and never breaks what strong typing accepts",
  "Under weak types a scalar satisfies a type or numeric/string assertion when its documented conversion does: numeric strings as numbers, 'true'/'false' as booleans, the empty string as null, and numbers or booleans as strings; strings that do not convert completely are left as strings. "
  "A document in a typed library is judged under weak types exactly as the loosely typed (all-strings) representation of the same scalars, and weak validation of any document against any accepted schema returns a verdict without throwing. "
  "uniqueItems compares strictly even then, and null against the empty string, integral floating point numbers, and the empty string as array or object are left open in these comparisons. For single type, enum and const assertions, anything valid under strong types stays valid under weak types.",
  ["inputs", "configurations"], "all schemas and documents under kWeakTypes, including empty arrays/objects/strings, through typed and untyped libraries",
  "The weak mode is exercised by no validation test that runs here; the conversion matrix (6 source types x 6 target types x library) is too large for literals.",
  [V+"internal/basic_adapter.hpp", V+"validation_visitor.hpp", V+"adapters/property_tree_adapter.hpp", V+"adapters/yaml_cpp_adapter.hpp", V+"adapters/std_string_adapter.hpp"],
  [("as*/maybe* conversions", V+"internal/basic_adapter.hpp")], ["adapter as*/maybe* results", "Validator::validate with kWeakTypes"])

p("C13", "Date, time, date-time and ipv4 formats accept exactly valid values",
  "A string satisfies format date, time, date-time or ipv4 exactly when it is valid according to RFC 3339 (calendar-correct days, leap years, leap seconds only at 23:59 UTC of any day, mandatory zone offset) or is a dotted-quad address with each octet 0-255. "
  "In permissive date/time mode the zone offset may be missing, and everything accepted in strict mode is accepted too with nothing else changed. "
  "Non-strings and unknown formats are always accepted, and no string makes format validation throw.",
  ["inputs", "configurations"], "all strings, both date/time modes; year is four digits per RFC 3339; octets with leading zeros are unspecified",
  "Existing tests list some tens of dates; calendar arithmetic, offsets that shift a leap second across midnight, and near-miss syntax are unbounded.",
  [V+"validation_visitor.hpp", V+"schema_parser.hpp"],
  [("visit(FormatConstraint)", V+"validation_visitor.hpp")], ["Validator::validate"])

p("C14", "String lengths count Unicode code points",
  "For every string, minLength and maxLength compare the number of Unicode code points, so that a string of n code points in valid UTF-8 (any plane, embedded NUL included) satisfies minLength m iff n >= m and maxLength m iff n <= m. "
  "The UTF-8 length helper returns that count, and for malformed or truncated UTF-8 stay within the given buffer and terminate.",
  ["inputs"], "all byte strings (valid and invalid UTF-8) and all bounds",
  "Existing tests hold a few literals; boundary code points and truncated sequences at buffer ends are not sampled and need a sanitizer to see.",
  [V+"utils/utf8_utils.hpp", V+"validation_visitor.hpp"],
  [("u8_strlen / u8_nextchar", V+"utils/utf8_utils.hpp")], ["u8_strlen", "Validator::validate"])

p("C15", "Text to number conversion is exact, complete and locale-independent",
  "Converting text to a floating point number succeeds exactly when the whole text is a JSON-style decimal number, yields the correctly rounded double, and gives the same answer whatever the process locale is. "
  "Loosely typed libraries (Property Tree, YAML) and string-to-number casts give the same numbers as typed libraries do for the same text. Overflow, underflow and spellings that are not JSON numbers but look like decimals ('.5', '1.') are left open.",
  ["inputs", "configurations"], "all strings and all installed or installable numeric locales (decimal comma, grouping), through the parser and through the adapters that use it",
  "Existing tests parse about ten literals.",
  [V+"internal/double_parser.hpp", V+"internal/basic_adapter.hpp", V+"adapters/property_tree_adapter.hpp", V+"adapters/yaml_cpp_adapter.hpp", V+"adapters/std_string_adapter.hpp"],
  [("parseDouble", V+"internal/double_parser.hpp")], ["parseDouble result", "adapter asDouble"])

p("C16", "Schemas built in code behave like the same schemas parsed from JSON",
  "Assembling a schema with the constraint and subschema API - in any order of operations, copying constraint objects at any point, mutating or destroying the originals afterwards - yields a schema with the same verdicts as parsing the equivalent JSON schema. "
  "Adding to a subschema owned by a different schema, or to the shared empty subschema, is rejected and changes nothing. "
  "Iterating the schema's constraints and subschemas visits exactly what was added, and titles, descriptions and ids are returned as set.",
  ["histories", "programs"], "all sequences of API calls (createSubschema, addConstraint*, set*), all constraint types, interleaved with copies and destruction",
  "Existing tests build one custom constraint; ownership and copying depend on the call history.",
  [V+"schema.hpp", V+"subschema.hpp", V+"constraints/concrete_constraints.hpp", V+"constraints/basic_constraint.hpp"],
  [("clone-on-add, mutableSubschema ownership check", V+"schema.hpp"), ("copy constructors", V+"constraints/concrete_constraints.hpp")], ["Validator::validate", "Subschema::apply", "thrown exceptions"],
  state=[("subschemaSet", "subschemas owned by a Schema", V+"schema.hpp")])

p("C17", "Everything a schema allocates is released, even when an allocation fails",
  "For every history of parsing, building, moving and destroying schemas, every block obtained from a schema's custom allocation functions is returned to the matching free function exactly once and never used afterwards, and no other memory is leaked or released twice. "
  "This holds when populating fails part-way with an exception and when any single allocation fails; after such a failure the schema can still be destroyed safely.",
  ["histories", "fault_sequences"], "all API histories, schemas accepted or rejected by the parser, and every position of a failing allocation (both reporting styles: exception and null); allocations inside third-party libraries' noexcept functions are excluded, and so is moving a schema that refers to its own root",
  "No existing test uses custom allocators or injects allocation failure, and leaks are invisible without instrumentation.",
  [V+"schema.hpp", V+"subschema.hpp", V+"internal/custom_allocator.hpp", V+"constraints/basic_constraint.hpp", V+"schema_parser.hpp"],
  [("OwningPointer / allocFn / freeFn", V+"subschema.hpp"), ("placement-new + rollback", V+"schema.hpp")], ["allocator call history", "AddressSanitizer live-bytes accounting"])

p("C18", "Validation is a pure function of schema, document and mode",
  "The verdict and the reported errors for a schema and document are the same however often, in whatever order, and with whatever other schemas and documents a validator has been used before, through a fresh or a reused validator or a copy of it. "
  "Validation modifies neither the schema nor the document, and one parsed schema may be used by several threads at once, each with its own validator, with the same verdicts as sequential use.",
  ["histories", "schedules"], "all sequences of validations sharing validators and schemas; several threads validating concurrently",
  "Existing tests use a fresh validator per document; the regular-expression cache and lazily built state make the outcome history-dependent in principle.",
  [V+"validator.hpp", V+"validation_visitor.hpp", V+"internal/regex.hpp", V+"subschema.hpp"],
  [("m_regexesCache keyed by pattern text", V+"validator.hpp"), ("function-local static regexes", V+"validation_visitor.hpp")], ["verdict/error sequences", "ThreadSanitizer"],
  state=[("m_regexesCache", "compiled patterns kept between validations", V+"validator.hpp")])

p("C19", "Malformed keyword values are rejected when the schema is parsed",
  "If a schema, at any place the parser interprets as a schema, gives a supported keyword a value the selected draft does not allow (wrong JSON type, negative count, a value other than an array of strings where one is needed, non-schema where a schema is needed, unknown type name, divisor that is not positive), parsing fails with an exception. "
  "Values that the documented weak casts convert count as well-formed, and identifiers, annotations, empty arrays and keywords of other drafts are left open. Parsing never fails for a schema in which every keyword value is well-formed, and data positions (enum, const, default, unknown keywords) are never interpreted as schemas.",
  ["inputs", "programs", "configurations"], "all schemas obtained by corrupting one keyword value at any depth of a well-formed schema, for each draft",
  "No existing test parses a malformed schema of most keywords; the error branch of each keyword parser is separate code.",
  [V+"schema_parser.hpp"], [("type checks in make*Constraint", V+"schema_parser.hpp")], ["SchemaParser::populateSchema exceptions"])

p("C20", "No JSON input crashes parsing or validation",
  "For every JSON value offered as a schema (in any draft mode) parsing terminates and either succeeds or throws a standard exception, and for every schema that was accepted and every JSON document, validation in every mode terminates with a verdict or a standard exception. "
  "Neither ever reads or writes memory out of bounds, leaks, overflows, divides by zero or relies on other undefined behaviour, for documents of bounded nesting depth, regular expressions that do not backtrack catastrophically, and callbacks that serve finitely many documents.",
  ["inputs", "configurations"], "all JSON values as schema and as document (meaningful, mutated and random), all drafts, type modes and date modes, with and without results",
  "The repository's fuzz target is not part of the test run and uses one adapter without UBSan oracles; unit tests do not use sanitizers.",
  [V+"schema_parser.hpp", V+"validation_visitor.hpp", V+"internal/", V+"adapters/"],
  [("type checks before access", V+"schema_parser.hpp")], ["process status under ASan/UBSan", "exceptions"])

p("C21", "Annotations, unknown keywords and member order never change a verdict",
  "Inserting or changing annotation keywords (title, description, default, examples, $comment, $schema, readOnly, contentEncoding, unused definitions, unknown keywords) in any subschema, and permuting the members of any object in schema or document, leaves acceptance of the schema and every verdict unchanged. "
  "So does replacing a schema by a logically equivalent one: wrapping in allOf/anyOf/oneOf of one, double negation, splitting independent keywords over allOf, adding an always-true branch to allOf or an always-false one to anyOf, and reordering branches.",
  ["inputs", "programs"], "all schemas and documents and all placements of such edits",
  "Metamorphic: each instance relates two runs; the tests never compare two runs.",
  [V+"schema_parser.hpp", V+"validation_visitor.hpp"], [("keyword lookup by name", V+"schema_parser.hpp")], ["Validator::validate return value"])

p("C22", "A custom regular expression engine is used for every pattern, faithfully",
  "With a user-supplied engine type, each pattern and patternProperties expression reaches the engine as exactly the text in the schema, and each search is asked about exactly the document string or property name concerned, so that verdicts are those of the specification with the engine's own notion of matching. "
  "An engine is constructed at most once per distinct pattern text per validator, and exceptions it throws propagate and leave the validator usable.",
  ["inputs", "histories"], "all pattern texts (including embedded NUL, non-ASCII, texts invalid for std::regex) and subject strings, all engines",
  "One existing test uses a trivial engine with one pattern.",
  [V+"validator.hpp", V+"validation_visitor.hpp", V+"constraints/concrete_constraints.hpp"],
  [("ValidatorT<RegexEngine>, m_regexesCache", V+"validator.hpp")], ["engine call history", "Validator::validate"])

p("C23", "User-defined constraints are built, invoked and combined like built-in ones",
  "A constraint builder registered for a keyword is called exactly once for each place at which a schema object that carries that keyword is compiled (the root once more when '#' refers to it), with the keyword's value, and never otherwise; a validating constraint it produces is consulted for exactly the document values its schema applies to, sees that value and its path, and its verdict combines with built-in keywords as an ordinary assertion. "
  "Errors it reports appear among the results, and all builders and constraints are destroyed exactly once.",
  ["inputs", "histories"], "all schemas with custom keywords at any depth, all documents, any number of builders",
  "One existing test validates one flat document with one builder.",
  [V+"schema_parser.hpp", V+"constraint_builder.hpp", V+"constraints/concrete_constraints.hpp", V+"validation_visitor.hpp"],
  [("PolyConstraint", V+"constraints/concrete_constraints.hpp"), ("addConstraintBuilder", V+"schema_parser.hpp")], ["builder/validate call history", "Validator::validate"])

p("C24", "Every build configuration of the library gives the same verdicts",
  "Wherever a JSON library is installed, a program using the single-header bundle produced by the bundle script for a JSON library, or the library built without exceptions, or with Boost.Regex, or with other optimisation and assertion settings, computes the same verdicts and errors as one using the ordinary headers. "
  "The bundle compiles on its own for every adapter name the script offers. "
  "Without exceptions, an input that would raise an exception ends the process after a diagnostic on standard error instead of continuing.",
  ["inputs", "configurations"], "all schemas and documents; bundle per adapter; VALIJSON_USE_EXCEPTIONS 0/1; VALIJSON_USE_BOOST_REGEX 0/1; NDEBUG and optimisation levels",
  "The tests are built in a single configuration and never use a generated bundle.",
  ["bundle.sh", V+"exceptions.hpp", V+"internal/regex.hpp", V+"internal/debug.hpp"],
  [("include inlining", "bundle.sh"), ("throw*Error switch", V+"exceptions.hpp")], ["process output and exit status per configuration"])

p("C25", "Loading a document yields exactly the file's JSON or a clean failure",
  "For every supported JSON library, loading a file that contains a well-formed JSON document succeeds and yields a document equal to the file's JSON value, whatever its size, line endings or member order, and whatever the document object held before (nesting deeper than the library's limit may be refused; property trees and YAML hold scalars as text). "
  "Loading a missing or unreadable path, a truncated document, or one followed by something else, reports failure without crashing, hanging or handing out a partial document as success.",
  ["inputs", "configurations"], "all JSON texts and all truncations of them, in all supported libraries; files of any size including empty",
  "The tests load a handful of fixed files per library.",
  [V+"utils/"], [("loadDocument per library, loadFile", V+"utils/")], ["loadDocument result", "resulting document through the adapter"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
