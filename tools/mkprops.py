"""Single source for properties.jsonl: run `python3 tools/mkprops.py` to regenerate it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

B = "gemd/entity/bounds/"; V = "gemd/entity/value/"; O = "gemd/entity/object/"; T = "gemd/entity/template/"

prop("C01", "Bounds containment is exactly set inclusion",
     "For any two bounds of the same kind, A.contains(B) is True exactly when every value permitted by B is permitted by A "
     "(integer and real ranges with inclusive endpoints, category and component sets, molecular structures); real ranges in other, "
     "compatible units are compared after conversion and incompatible units are never contained. "
     "A value is contained exactly when the smallest bounds of that value are, bounds or values of another kind and None are never contained, "
     "and anything else raises TypeError. The check changes neither operand.",
     ["inputs"], "all endpoints (every float64 / integers up to 2^60), category and component strings, all bounds and value kinds, unit pairs",
     "Tests compare a handful of hand-picked ranges and sets; inclusion must hold for every endpoint, including equal, adjacent, negative and very large ones.",
     [B + f for f in ("integer_bounds.py", "real_bounds.py", "categorical_bounds.py", "composition_bounds.py", "molecular_structure_bounds.py", "base_bounds.py")] + [V],
     [("contains", B + "*.py"), ("_to_bounds", V + "*.py"), ("_convert_bounds", B + "real_bounds.py")],
     ["return value of contains"])

prop("C02", "Bounds union is the least bounds covering all operands; update applies it",
     "A.union(others...) is a new bounds of A's kind that permits exactly the smallest range or set covering A and every operand (bounds or values, any number, "
     "real ranges converted to A's units), and leaves A and the operands unchanged; A.update(others...) leaves A equal to that union. "
     "If any operand is of another kind, or has incompatible units, an exception is raised and A is unchanged.",
     ["inputs"], "all endpoints, string sets, operand counts up to 3 and operand kinds (bounds or value)",
     "Tests try one or two unions per class with literal endpoints.",
     [B + f for f in ("integer_bounds.py", "real_bounds.py", "categorical_bounds.py", "composition_bounds.py", "molecular_structure_bounds.py")],
     [("union", B + "*.py"), ("update", B + "*.py")], ["returned bounds", "A after update"])

prop("C03", "Bounds and distributions are never ill-formed",
     "After any sequence of constructions and assignments, accepted or rejected, integer and real bounds and uniform integers hold finite (integer-valued where integral) endpoints with lower <= upper, "
     "nominal integers hold exact integers, category/component sets hold only strings, and discrete categorical probabilities sum to 1 within 1e-9. "
     "An assignment that would break this raises and leaves the object exactly as it was; an assignment that would not is accepted and stored without change of numeric value.",
     ["inputs", "histories"], "all float64 values (NaN and infinities included), integers to 2^60, strings and non-strings, sequences of assignments",
     "Tests try a few invalid literals and never an arbitrary assignment sequence or a non-finite/huge number on each setter.",
     [B + "integer_bounds.py", B + "real_bounds.py", B + "categorical_bounds.py", B + "composition_bounds.py", V + "uniform_integer.py", V + "nominal_integer.py", V + "discrete_categorical.py"],
     [("property setters", B + "*.py"), ("property setters", V + "*.py")], ["properties of the object after each assignment"],
     [("_lower_bound/_upper_bound", "endpoints", B + "integer_bounds.py")])

prop("C04", "Attribute values are checked against their template at the set level",
     "Assigning a value or a template to an attribute, in either order and however often, checks the value against the template's bounds whenever both are present and the template is an actual template (not a link): "
     "at level FATAL a value outside the bounds raises ValueError and the attribute keeps its previous value and template, at WARNING it is stored and a warning is logged, at IGNORE it is stored silently. "
     "A value inside the bounds, or an attribute with only one of the two or with a linked template, is always accepted without warning.",
     ["inputs", "histories"], "all values and bounds endpoints, all three levels, assignment sequences, attribute kinds",
     "Tests exercise one value per level in one order.",
     ["gemd/entity/attribute/base_attribute.py", "gemd/entity/bounds_validation.py"],
     [("BaseAttribute.value/template setters, _check", "gemd/entity/attribute/base_attribute.py")], ["attribute.value, attribute.template, exceptions, log records"])

prop("C05", "Object templates constrain every attribute put on an object",
     "Every attribute that enters the properties, conditions or parameters of a run or spec - by constructor, assignment, append, extend, insert or item assignment - is checked against the object's template (for runs, the template of its spec): "
     "the object template's entry with the attribute's own template (or, if it has none, with its name) supplies the permitted bounds, the entry's narrowed bounds if given and otherwise the attribute template's. "
     "Outside them, FATAL raises ValueError and the list keeps its previous content, WARNING logs and stores, IGNORE stores silently; with no matching entry the attribute is accepted silently, and an object template rejects narrowed bounds that its attribute template's bounds do not contain.",
     ["inputs", "histories"], "all values and endpoints, all levels, all entry points, object kinds, several template entries",
     "Tests use fixed bounds and mostly append/constructor.",
     [O + "has_template_check_generator.py", O + "has_conditions.py", O + "has_parameters.py", O + "has_properties.py", O + "material_spec.py",
      T + "has_condition_templates.py", T + "has_parameter_templates.py", T + "has_property_templates.py", T + "base_template.py"],
     [("_generate_template_check", O + "has_template_check_generator.py"), ("validate_*", T + "has_*_templates.py"), ("_homogenize_ranges", T + "base_template.py")])

prop("C06", "Ingredient quantities are validated at the set level",
     "A mass, volume or number fraction of an ingredient (run or spec) that is not dimensionless and within [0, 1], and an absolute quantity that is negative or dimensionless, is refused with ValueError at level FATAL leaving the ingredient unchanged, stored with a logged warning at WARNING, and stored silently at IGNORE. "
     "Every other quantity is stored at every level without warning or error, None clears the field, and anything that is not a continuous value raises TypeError without changing the ingredient.",
     ["inputs"], "all nominal/mean/endpoint values, units among dimensionless and dimensional, all levels, all four fields, runs and specs",
     "Tests use a few literals; the accepting side at FATAL is not covered for absolute quantities.",
     [O + "has_quantities.py", O + "ingredient_run.py", O + "ingredient_spec.py"], [("setters, _check", O + "has_quantities.py")])

prop("C07", "The validation level is scoped",
     "Inside a validation_level(x) block, nested to any depth, the level is x; when the block is left, normally or by any exception, the level is what it was on entry, and the block yields that previous level. "
     "An invalid level is refused with ValueError without changing the current level; set_validation_level sets and get_validation_level reports the current level.",
     ["histories", "fault_sequences"], "all levels, nestings, and exception points",
     "Tests leave blocks only normally.",
     ["gemd/entity/bounds_validation.py"], [("validation_level", "gemd/entity/bounds_validation.py")])

prop("C08", "Two-sided links stay consistent under any assignment history",
     "After any sequence of assignments (to objects, links or None, accepted or refused), an ingredient appears exactly once in the ingredients of the process it points to and in no other process's, a measurement likewise in the measurements of its material, "
     "a process's output_material, if set, points back to it, and the material most recently assigned a process is its output_material until that material or process is reassigned. "
     "A refused assignment (wrong type) raises TypeError and changes nothing.",
     ["histories", "inputs"], "assignment sequences over several runs/specs with arbitrary (possibly equal) field contents",
     "Tests make one or two assignments on objects with distinct contents.",
     [O + f for f in ("ingredient_run.py", "ingredient_spec.py", "material_run.py", "material_spec.py", "measurement_run.py", "process_run.py", "process_spec.py")],
     [("process / material setters", O + "*.py")], ["process.ingredients, material.measurements, process.output_material"],
     [("_ingredients", "soft side of ingredient.process", O + "process_run.py"), ("_measurements", "soft side of measurement.material", O + "material_run.py"), ("_output_material", "soft side of material.process", O + "process_run.py")])

prop("C09", "Uids and other case-insensitive dictionaries ignore case consistently",
     "Under any sequence of dictionary operations (construction, item get/set/delete, get, in, pop, popitem, setdefault, update, |=, clear, copy), a case-insensitive dictionary behaves as an insertion-ordered map keyed by the lower-cased key: a value stored under one casing is found, replaced (same casing) and removed under any, and no two keys differ only by case. "
     "Storing under a different casing of an existing key raises ValueError, a missing key raises KeyError or yields the default, and an operation that raises leaves the contents as they were. An entity accepts any dictionary of strings without such a clash as its uids.",
     ["inputs", "histories"], "all short keys over ASCII/Latin-1 text, operation sequences",
     "Tests run each method once with one or two literal keys.",
     ["gemd/entity/case_insensitive_dict.py", "gemd/entity/base_entity.py"], [("CaseInsensitiveDict", "gemd/entity/case_insensitive_dict.py"), ("uids setter, add_uid", "gemd/entity/base_entity.py")],
     None, [("lowercase_dict", "lower-cased key -> stored key", "gemd/entity/case_insensitive_dict.py")])

prop("C10", "Validated lists only ever hold accepted, triggered elements",
     "Whatever sequence of operations builds it (construction from any iterable, including one-shot iterators, append, extend, insert, item and slice assignment, +=), a validated list holds exactly the elements an ordinary list would, each of an accepted type and each passed once to the trigger, whose non-None result is stored instead. "
     "An operation given an element of another type raises TypeError and leaves the list unchanged.",
     ["inputs", "histories"], "all element values and types, positions (negative and out of range included), operation sequences, iterable kinds",
     "Tests use lists of literals and single operations.",
     ["gemd/entity/valid_list.py", "gemd/entity/setters.py"], [("ValidList", "gemd/entity/valid_list.py"), ("validate_list", "gemd/entity/setters.py")])

prop("C11", "Entity equality is reflexive, symmetric and sees every field",
     "Two entities are equal exactly when they have the same type, the same uids and equal fields, where list-valued fields (tags, file links, attributes, measurements, ingredients) are compared as multisets regardless of order and linked entities recursively, cycles included (a process's output_material, which mirrors the material's own field, is not compared); "
     "only an empty list against a non-empty one is tolerated, and only between entities with the same non-empty uids. Equality is symmetric and never modifies or fails on either operand, and an entity equals a link or (scope, id) pair exactly when it has that id under that scope (scope compared case-insensitively).",
     ["inputs"], "all field contents, list orders and multiplicities, entity kinds, link structures",
     "Tests compare a few hand-made pairs.",
     ["gemd/entity/base_entity.py", "gemd/entity/dict_serializable.py", "gemd/entity/link_by_uid.py"], [("_cached_equals, __eq__", "gemd/entity/base_entity.py"), ("__eq__", "gemd/entity/dict_serializable.py"), ("__eq__", "gemd/entity/link_by_uid.py")])

prop("C12", "JSON round trip reproduces the object graph",
     "For any container or graph of GEMD objects whose uids are unambiguous, loads(dumps(x)) succeeds and yields an equal structure: the same kinds, field values, containers (string-keyed dictionaries without a \"type\" key; tuples come back as lists) and JSON scalars (type included), and the same link structure, with each entity restored once and shared wherever it was shared, and soft sides (ingredients, measurements, output_material) restored. "
     "dumps alters x only by giving a uid in the encoder's scope to entities that had none, links among x that name an entity of x come back as that entity, and links to entities that are not part of x survive as links.",
     ["inputs"], "field contents, uids (scopes differing in case included), presence or absence of every link, sharing, containers",
     "Tests round-trip a few fixed histories.",
     ["gemd/json/gemd_json.py", "gemd/json/gemd_encoder.py", "gemd/util/impl.py", "gemd/entity/dict_serializable.py"],
     [("GEMDJson.dumps/loads/_load_and_index", "gemd/json/gemd_json.py"), ("flatten, substitute_links", "gemd/util/impl.py"), ("from_dict/as_dict", "gemd/entity/dict_serializable.py")])

prop("C13", "Flattening yields every reachable entity once, linked and in write order",
     "flatten(x, scope) returns exactly one entry for every entity reachable from x in either direction of its links (entities sharing a uid counting as one), each equal in its own fields to the original and referring to other entities only through links that carry a uid of the entity referred to. "
     "Every entity an entry refers to that is itself in the result comes earlier; entities without a uid get one in that scope, or ValueError is raised if no scope is given, and x is otherwise unchanged.",
     ["inputs"], "link presence patterns, sharing, field contents, uids, starting points",
     "Tests flatten a few fixed graphs.",
     ["gemd/util/impl.py"], [("flatten, recursive_flatmap, writable_sort_order, set_uuids", "gemd/util/impl.py")])

prop("C14", "Substituting links and substituting objects are inverse",
     "substitute_links replaces every entity nested in x (in lists, tuples, dictionary keys and values, and GEMD objects, but not x itself) by a link carrying one of its uids - the requested scope's, if it has a uid in exactly that scope - and substitute_objects replaces every link whose scope and id are in the index by that entity, leaving other links and all other content alone; each undoes the other. "
     "Without inplace the argument is unchanged; with inplace=True the argument itself is modified and its writable content ends up equal to that of the copy the other mode returns. A requested scope that is missing with fallback disallowed raises ValueError.",
     ["inputs"], "nesting shapes, uids and scopes, field contents, presence of links",
     "Tests use a few literal structures.",
     ["gemd/util/impl.py", "gemd/entity/base_entity.py"], [("_substitute, _substitute_inplace, substitute_links, substitute_objects, make_index", "gemd/util/impl.py")])

prop("C15", "Every GEMD object survives conversion to a dictionary and back",
     "For every value, bounds, attribute, template, object, link, file link and source, build(dump(x)) is a new object of the same class with equal content field by field, from_dict(as_dict(x)) likewise, and re-dumping it gives the same dictionary; dumping does not change x. "
     "The dictionary's type names the class, unknown fields are ignored with a warning, and an unknown type raises TypeError. thin_dumps shows the same with every nested entity replaced by a link carrying its uid.",
     ["inputs"], "all classes and field values",
     "Tests dump a few objects per class with literals.",
     ["gemd/entity/dict_serializable.py", "gemd/json/gemd_json.py", "gemd/json/gemd_encoder.py", O + "ingredient_run.py"], [("as_dict/from_dict/dump/build", "gemd/entity/dict_serializable.py"), ("raw_dumps/raw_loads", "gemd/json/gemd_json.py")])

prop("C16", "Enumerated fields accept exactly their vocabulary, ignoring case and padding",
     "For every string, an enumeration resolves it to a member exactly when, after trimming surrounding whitespace and ignoring case, it is that member's value or one of its synonyms; otherwise lookup yields None, or raises ValueError where a value is required. "
     "Attribute origin and material sample type store the resolved member, refuse everything else leaving the previous value, and a member compares equal to and prints as its canonical value. A migrated name still names the member that replaced it, with a deprecation warning.",
     ["inputs"], "all strings up to the stated length over ASCII/Latin-1, all members and synonyms",
     "Tests try a few spellings.",
     ["gemd/enumeration/base_enumeration.py", "gemd/enumeration/origin.py", "gemd/enumeration/sample_type.py", "gemd/entity/attribute/base_attribute.py", O + "material_run.py"],
     [("from_str, _missing_", "gemd/enumeration/base_enumeration.py")])

prop("C17", "A link made from an entity identifies that entity",
     "to_link and LinkByUID.from_entity return a link whose scope and id are one of the entity's uids: that of the requested scope (any casing) if present, otherwise - where fallback applies - another of its uids. "
     "to_link raises ValueError when the entity has no uids or lacks the scope and fallback is off; from_entity gives an entity without uids one new uid in the requested (default 'auto') scope and otherwise never changes the entity. The link always equals the entity, compares equal to the matching (scope, id) pair and hashes like it.",
     ["inputs"], "all uid maps up to three scopes, requested scopes, fallback flag",
     "Tests use literal scopes in one casing.",
     ["gemd/entity/base_entity.py", "gemd/entity/link_by_uid.py"], [("to_link", "gemd/entity/base_entity.py"), ("from_entity", "gemd/entity/link_by_uid.py")])

prop("C18", "Unit conversion is affine, consistent and refuses incompatible units",
     "For every magnitude, converting between compatible (non-logarithmic) units applies the units' fixed scale and offset, so that converting there and back, or through an intermediate unit, gives the same result up to floating-point rounding, ordering is preserved, and converting to the same unit returns the value itself; the base-unit scale and offset reported for a unit agree with conversion. "
     "Converting between units of different dimension - or between plain numbers, angles, counts and information units - raises the incompatible-units error. Changing the definitions file takes effect at once on conversion, parsing and base units.",
     ["inputs"], "all real magnitudes; unit pairs from the definition file's families including offset and scaled units",
     "Tests convert a few literals.",
     ["gemd/units/impl.py"], [("convert_units, get_base_units", "gemd/units/impl.py")])

prop("C19", "Graph traversals visit every entity exactly once",
     "recursive_foreach applies its function exactly once to every entity reachable from its argument through containers, attributes and links of either direction, and recursive_flatmap collects the function's results for each exactly once, following only the writable side of two-sided links when unidirectional. "
     "Shared, cyclic and nested structures (tuples, lists, dictionary keys and values, unhashable nesting) all terminate and are covered; make_index maps every (scope, id) of every entity found to that entity.",
     ["inputs"], "link presence patterns, sharing, container shapes",
     "Tests traverse a few fixed structures.",
     ["gemd/util/impl.py"], [("recursive_foreach, recursive_flatmap, make_index", "gemd/util/impl.py")])

prop("C20", "make_instance mirrors the spec graph with runs",
     "make_instance(spec) returns the run kind matching the spec and creates exactly one run for each material, process and ingredient spec reached from it through the process of materials, the ingredients of processes and the material of ingredients, each with that spec and (except ingredients, which take it from the spec) its name, and with the runs linked to each other exactly as the specs are (ingredients in the same order). "
     "Specs shared in the graph yield shared runs, the specs themselves are unchanged, and anything that is not a spec raises TypeError.",
     ["inputs"], "link presence patterns, sharing, names",
     "Tests instantiate one or two fixed graphs.",
     ["gemd/entity/util.py"], [("make_instance", "gemd/entity/util.py")])

prop("C21", "Builders wire complete, consistent nodes, edges and attributes",
     "make_node returns a material run with linked spec, process run and process spec named and templated as asked (process name defaulting to the process template's name, then the node name); add_edge creates one ingredient run and spec connecting input to output at run and spec level with the given quantities, refusing incomplete materials and misplaced units with ValueError; add_measurement attaches a measurement run with spec, template and the attributes sorted by kind. "
     "add_attribute, make_attribute and make_value produce the attribute and value kind that the template and its bounds call for, holding the given value with the template's name and units, and attach it to the target, raising ValueError for a combination that does not fit.",
     ["inputs"], "all names, quantities, optional arguments present or absent, template/bounds kinds and targets",
     "Tests build a few fixed graphs.",
     ["gemd/builders/impl.py"], [("make_node, add_edge, add_measurement, add_attribute, make_attribute, make_value", "gemd/builders/impl.py")])

prop("C22", "all_dependencies lists exactly the entities an object refers to",
     "For every object and template, all_dependencies returns exactly the set of entities and links it directly refers to on the writable side: its template or spec, process, material, and the templates of its attributes (for material specs, of properties and their conditions; for object templates, of their entries) - nothing missing, nothing extra, no None. "
     "It changes nothing and does not recurse.",
     ["inputs"], "presence patterns of every reference, as objects or links",
     "Tests check a few fixed objects.",
     ["gemd/entity/base_entity.py", "gemd/entity/has_dependencies.py", O, T], [("all_dependencies, _local_dependencies", "gemd/entity/base_entity.py")])

prop("C23", "Molecular and formula values are normalised without loss",
     "An InChI value holds its input with the prefix normalised to 'InChI=1S/' or 'InChI' and the rest of the text untouched, and normalising again changes nothing; SMILES and formulas are stored verbatim. "
     "An empirical formula is accepted exactly when every element symbol in it (a capital letter with the lower-case letters after it) is a known element, and its bounds have exactly those symbols as components; a non-string raises TypeError and a refused assignment keeps the previous text.",
     ["inputs"], "all strings up to the stated length",
     "Tests use a few literal identifiers.",
     [V + "inchi_value.py", V + "smiles_value.py", V + "empirical_formula.py"], [("inchi / smiles / formula setters, _elements", V + "*.py")])

prop("C24", "An ingredient run's name and labels follow its spec",
     "While an ingredient run's spec is an ingredient spec, its name and labels are the spec's current name and labels; when that spec is replaced by a link or removed they stay as they last were, and with a new spec they follow the new one. "
     "They survive conversion to a dictionary and back, with or without the spec, and cannot be set directly.",
     ["inputs", "histories"], "all names and label lists, sequences of spec changes and spec edits",
     "Tests follow one fixed sequence.",
     [O + "ingredient_run.py"], [("name, labels, spec setter, from_dict", O + "ingredient_run.py")])

prop("C25", "Field setters enforce their types and change nothing when refusing",
     "The typed fields - an object's name, spec, template, material, process, source and quantities, an attribute's value and template, a template's bounds and its (template, bounds) entries, lists of attributes, tags, labels, allowed names and file links, and the fields of values, bounds and sources - accept exactly the kinds they document (links included where documented), store and return what was given, and normalise None and single elements as documented; each object keeps lists of its own. "
     "Anything else raises TypeError or ValueError and leaves the object as it was.",
     ["inputs"], "all fields and classes, all kinds of argument",
     "Tests try one or two wrong types for a few fields.",
     [O, "gemd/entity/attribute/", T, V, "gemd/entity/source/performed_source.py", "gemd/entity/setters.py"], [("property setters", O + "*.py")])

prop("C26", "Unit strings are canonicalised idempotently and keep their meaning",
     "For every unit expression the parser accepts, including ones with embedded scaling factors, the canonical string parses to the same unit (same conversion to base units) and is a fixed point of parsing; expressions it does not accept raise an error and never alter other units. "
     "Quantities keep the canonical units they were given through storage and serialization.",
     ["inputs"], "all unit expressions",
     "Tests parse a fixed list of expressions.",
     ["gemd/units/impl.py"], [("parse_units, _scaling_preprocessor, _unmangle_scaling", "gemd/units/impl.py")])

prop("C27", "Values, bounds, attributes and links are equal exactly when their content is",
     "Two values, bounds, attributes, sources, file links or links are equal exactly when they are of the same class and every field is equal (lists in order, dictionaries and category sets regardless of order, templates as entities compare); objects of different classes never are, however similar their content, nor is anything else equal to one, except that a link equals its (scope, id) pair and the entities it identifies. "
     "Equality is reflexive and symmetric, != is its negation, comparing changes neither side, and equal links hash equal.",
     ["inputs"], "all field contents, all pairs of classes",
     "Tests compare a few fixed objects.",
     ["gemd/entity/dict_serializable.py", "gemd/entity/link_by_uid.py", V, B, "gemd/entity/attribute/"],
     [("DictSerializable.__eq__, LinkByUID.__eq__, __hash__", "gemd/entity/*.py")])

prop("C28", "The complete material history lists every connected object as plain data",
     "complete_material_history(x) returns exactly one dictionary of plain JSON data for every entity connected to x in either direction of its links: the entity's own serialized form, with its type and uids and every entity it refers to on the writable side replaced by a link carrying one of that entity's uids, from which the entity (with those links) can be rebuilt. "
     "Entities without a uid are given one in scope 'auto'; x is otherwise unchanged.",
     ["inputs"], "all link structures, all fields",
     "Tests look at the history of one example and a three-object chain.",
     ["gemd/entity/util.py", "gemd/util/impl.py", "gemd/json/gemd_json.py"], [("complete_material_history", "gemd/entity/util.py")])

prop("C29", "A type string names one class, which only a descendant can take over",
     "Defining a class with a type string registers it for that string: dictionaries and JSON of that type are then built as the class registered last, and its objects carry the type. A string already registered can only be taken over by a descendant of the registered class; otherwise the definition raises ValueError and the registry is unchanged. "
     "A class without a type string inherits its base's without replacing it, fields to leave out of dictionaries accumulate along inheritance, and class_mapping returns a copy.",
     ["histories"], "all sequences of class definitions and type strings",
     "Tests define two or three classes in a fixed order.",
     ["gemd/entity/dict_serializable.py", "gemd/json/gemd_json.py"], [("DictSerializableMeta", "gemd/entity/dict_serializable.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
