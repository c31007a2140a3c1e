EX = "bounded exhaustive enumeration, executed on the real code"
p("C01", "Every supported entity survives reading and writing",
  "A statement of a supported entity kind, with any legal combination of attribute values, is read as that kind and written back with the same keyword, the same number of attributes, and every attribute holding the value it had, in its place. Attributes given as omitted, inherited or by reference stay so. The identifier of the statement is kept; keywords of the older standard-case variants (IFCWALLSTANDARDCASE and the like) are read as their kind and written with the kind's keyword.",
  ["inputs"], "for every supported entity kind and every combination of up to N attributes deviating from their minimal form, each through all of its shapes (omitted, every enumeration literal, number classes, texts, references, lists of 0..n)",
  "Tests sample one or two statements of about half of the kinds, compared mostly as text; the attribute combinations are a product space.",
  ["parser/mod.rs", "objects", "geometry", "materials", "relations", "units", "properties"],
  [("reader per entity", "objects/*/deserialize.rs"), ("writer per entity", "objects/*/serialize.rs"), ("omitted, inherited, inline", "parser/optional.rs")],
  ["IFC::from_str", "IFC::to_string", "DataMap::get_untyped"],
  "model checking: exhaustive exploration of a nondeterministic entity model (choice tree, deviation-bounded) against the real reader and writer",
  "Every choice sequence of the entity model up to the deviation bound is generated, run through the real reader and writer, and compared with the model's value tree by an independent reader.")

p("C02", "Loading and writing a whole file is a fixpoint that loses nothing",
  "Writing a loaded file yields a file with exactly the same statements - identifiers, keywords and attribute values - each once and in ascending order of identifiers. Loading that output and writing it again yields the same bytes.",
  ["inputs"], "for every file made of up to N statements of the supported and unsupported kinds, in all combinations, with sparse, dense, descending and repeated identifiers",
  "Tests load a few sample files; what is lost depends on the combination of kinds, identifiers and references in one file.",
  ["lib.rs", "meta/datamap/mod.rs", "meta/datamap/serialize.rs", "parser/mod.rs"],
  [("statement loop", "meta/datamap"), ("ordered store", "meta/datamap/mod.rs")],
  ["IFC::from_str", "IFC::to_string", "IFC::from_file"],
  "model checking: exhaustive enumeration of files over an alphabet of statements, independent reader as oracle",
  "All files over the statement alphabet up to the length bound, plus the full exemplar file, are loaded, written, and reloaded by the real code.")

p("C03", "Statements of unknown kinds are kept verbatim",
  "A statement of a kind the library does not know, or does not understand in the form given, is kept character for character between its first and last character when the file is written again, whatever quotes, comments, semicolons or brackets it contains. It never changes how its neighbours are read.",
  ["inputs"], "for every sequence of up to N lexical symbols (quotes, doubled quotes, comments, semicolons, brackets, line breaks, references) as the body of an unknown statement, between known neighbours",
  "The tests have a handful of unknown statements without quoted semicolons or comments.",
  ["parser/dummy.rs", "meta/datamap"], [("verbatim reader", "parser/dummy.rs")],
  ["IFC::from_str", "IFC::to_string"],
  "model checking: exhaustive enumeration of symbol sequences up to a length, run through the real reader and writer",
  "Every symbol sequence that is a legal statement up to the length bound is generated and executed.")

p("C04", "Blanks, line breaks and comments between tokens change nothing",
  "A file that differs from another only by blanks, tabs, line breaks or comments between tokens is read as the same content. It is written as the same bytes.",
  ["inputs"], "for every token gap (and all combinations of up to N gaps) of an exemplar file holding every supported kind and every filler",
  "The sample files use one layout each; the gaps multiply with the readers, each of which handles blanks on its own.",
  ["parser/mod.rs", "parser/comma.rs", "parser/list.rs", "meta/header", "meta/footer"],
  [("blank and comment skipping", "parser/mod.rs"), ("separator", "parser/comma.rs")],
  ["IFC::from_str", "IFC::to_string"],
  "model checking: exhaustive enumeration of layout insertions at all token gaps and combinations up to a depth",
  "Every gap of every kind's statement and of the header and footer, with every filler, singly and in combinations up to the depth.")

p("C05", "References are checked on load: accepted exactly if of an allowed kind",
  "A file is rejected when an attribute restricted to certain kinds refers to a missing statement or to a supported statement of another kind. It is accepted when all such attributes refer to allowed kinds. Nothing else about the kinds decides.",
  ["inputs", "configurations"], "for every restricted reference attribute of every kind and every supported kind as target, a missing target, and targets before and after the referring statement",
  "Tests verify a handful of correct references and hardly any wrong one; the space is attributes x kinds.",
  ["traits/ifc_type.rs", "meta/datamap/mod.rs", "relations", "/ifc_rs_verify_derive/src/lib.rs"],
  [("verification after load", "lib.rs"), ("kind check derive", "traits")],
  ["IFC::from_str result"],
  "model checking: exhaustive product of reference attributes and target kinds against an allowed-kinds model",
  "The whole product of restricted reference attributes and target kinds is executed; the allowed sets are a table written from the entity definitions.")

p("C06", "Reading never panics",
  "Reading any text, whether a legal file, a damaged one or no file at all, returns a result or an error. It does not panic, abort or loop forever.",
  ["inputs", "fault_sequences"], "for every single and (up to a bound) double token replacement, deletion, duplication and insertion over an exemplar of every kind, and every short text over the format's alphabet",
  "Tests only read well-formed files.",
  ["lib.rs", "parser", "meta", "id"], [("error returning readers", "parser/mod.rs"), ("reference lookups", "meta/datamap/mod.rs")],
  ["IFC::from_str result, panics"],
  "model checking: exhaustive fault enumeration over tokens of an exemplar file, panics and hangs monitored",
  "All single token faults over an exemplar of every supported kind, all pairs within small windows, and all short texts over the alphabet.")

p("C07", "A file cut off or torn while written is never taken for a complete one",
  "A file cut off before its end marker, at whatever byte, is rejected, also when zeros or the rest of an older file follow. A file that lost a block with a part of its frame (the keywords of file, header, header entries and sections), by being cut out, zeroed or blank, is rejected, and so is one with these in the wrong order.",
  ["crash_points", "inputs"], "for every byte position of several files as the point where writing stopped, and every torn block pattern",
  "No test reads a damaged file.",
  ["lib.rs", "meta/footer", "meta/datamap"], [("end of file marker", "meta/footer"), ("section frames", "meta/header")],
  ["IFC::from_str result"],
  "model checking: exhaustive enumeration of crash points and torn-write patterns of written files",
  "Every prefix of every file, every block loss that touches the frame, and every permutation and selection of the frame's pieces is read by the real code.")

p("C08", "The object store behaves like a map from identifiers to objects",
  "After any sequence of insertions (singly or as a list), removals, look-ups and mutations, the store holds exactly the objects that a plain map would hold, and a new object gets an identifier that is in use by none and larger than every one in use. Inserting a default for an identifier changes nothing when it is in use. Queries by identifier or kind, also after reading and writing the store, agree with it.",
  ["histories"], "for all operation sequences up to depth N over a small set of identifiers and objects of equal and different kinds",
  "The tests perform two or three operations.",
  ["meta/datamap/mod.rs"], [("object map", "meta/datamap/mod.rs")], ["DataMap operations", "IFC::to_string"],
  "model checking: explicit-state exploration of operation sequences against a reference map model",
  "Every operation sequence up to the depth is executed on the real store with the reference map in lockstep; states are deduplicated by content.",
  state=[("object map", "identifiers to objects", "meta/datamap/mod.rs")])

p("C09", "Globally unique identifiers are kept exactly and new ones are unique and legal",
  "A legal 22 character globally unique identifier in a file is kept exactly through reading and writing, and through conversion to its 128 bit form and back. New identifiers are legal and differ from each other; malformed ones are never turned silently into another legal one.",
  ["inputs"], "for every character at every position, all boundary 128 bit values, and every malformed length and character",
  "Tests round trip one or two identifiers.",
  ["id/ifc_uuid.rs"], [("base 64 conversion", "id/ifc_uuid.rs")], ["IFC::from_str", "IFC::to_string", "IfcUuid"],
  "model checking: exhaustive enumeration of characters x positions and digit pairs against an independent codec",
  "All single and paired digit positions and all boundary values are executed in every kind with an identifier.")

p("C10", "Numbers keep their value and stay legal",
  "A number read from a file and written again has the same value: exactly, up to 15 significant digits, otherwise to the nearest 15 digits. It is written in the legal form of its type (real numbers with a decimal point, whole numbers without) and is written the same when the output is read and written again. Whole numbers an attribute cannot hold are never changed into others.",
  ["inputs"], "for every literal over sign x whole part x fraction x exponent classes in every numeric attribute, every short decimal k/10^d below a limit, and every power-of-two and power-of-ten edge of whole numbers",
  "Tests use a dozen numbers; formatting switches between two notations depending on the digits.",
  ["parser/real.rs", "parser/integer.rs", "parser/timestamp.rs", "parser/geometry.rs", "values"],
  [("notation choice", "parser/real.rs"), ("vectors", "parser/geometry.rs")], ["IFC::from_str", "IFC::to_string", "point and layer constructors"],
  "model checking: exhaustive enumeration of number literals in all numeric attributes against an independent decimal oracle",
  "The whole product of literal classes and numeric attributes plus complete ranges of short decimals.")

p("C11", "Texts keep every character",
  "A text in a file keeps every character through reading and writing, whatever separators, brackets, comments or keywords it contains, and stays in its attribute. Umlauts in coded form are decoded in memory and coded again when written. A text given by a program is written as one legal text holding exactly that, quotes included.",
  ["inputs"], "for all symbol sequences up to length N (separators, quotes, comments, umlauts, codes, line breaks, keywords) in text attributes of every kind",
  "Tests use plain texts and one umlaut each.",
  ["parser/string.rs"], [("text reader and coder", "parser/string.rs")], ["IFC::from_str", "IFC::to_string", "text attributes"],
  "model checking: exhaustive enumeration of symbol sequences in text attributes, independent reader as oracle",
  "All symbol sequences up to the length bound in one attribute, shorter ones in every text attribute of every kind, umlaut pairs exhaustively.")

p("C12", "Enumeration values are the standard's and never change into another",
  "Every enumeration value of the exchange standard that is listed for an attribute is read, kept and written with the standard's spelling. A misspelt or unlisted value is never turned into a listed one. A value named in a program is written with the spelling of its name, and that spelling is read as it.",
  ["inputs"], "for every enumeration attribute, every literal of the standard's list, and every one-character deletion, insertion, replacement, swap and case change, and every literal of other enumerations",
  "Tests touch a few literals out of several hundred.",
  ["objects", "units", "geometry", "materials"], [("literal tables", "objects/*/type_enum.rs")], ["IFC::from_str", "IFC::to_string"],
  "model checking: exhaustive enumeration of literals and their one-edit neighbourhoods in every enumeration attribute",
  "The complete literal tables and their full one-edit neighbourhood in each attribute.")

p("C13", "The header and end of a file are kept and checked",
  "The descriptions, view definitions, name, time stamp, authors, organisations, versions, authorization and schema names of a header are read into their fields and written back unchanged, the time in universal time to the second. A header built by a program is written so that it reads back the same. What is not a header or end marker of the format is rejected.",
  ["inputs"], "for every header grammar choice up to a deviation bound, every date, time and offset class, every symbol sequence in every text up to length N, and every single-token fault of the frame",
  "Tests read a few sample headers; the fields, lists and time offsets combine.",
  ["meta/header", "meta/footer", "parser/timestamp.rs"],
  [("header reader", "meta/header"), ("time stamp", "parser/timestamp.rs"), ("end marker", "meta/footer")],
  ["IFC::from_str", "IFC::to_string", "header fields"],
  "model checking: exhaustive exploration of a header grammar model (choice tree) against the real reader and writer, with an independent calendar",
  "Every header of the choice tree up to the deviation bound, every time of the alphabet and all symbol sequences up to the bound are executed.")

p("C14", "Geometry made by a program is exactly the geometry it asked for",
  "Points, directions, axes, lines, point lists, curves, profiles, solids, operators, mapped items, placements (also relative to a product) and the ready-made product shapes are written with exactly the coordinates, dimensions, order and nesting given, directions scaled to length one. Each part is a new object unless the program gave an existing one, and objects that were there before stay as they are.",
  ["inputs", "call_sequences"], "for every geometry program up to N choices away from the smallest one: up to three constructions, each part given in place, by identifier or shared, every coordinate from a set of awkward numbers, lists of 0 to 4 points with repetitions",
  "Tests build one or two shapes with one set of numbers and compare none of them against what was asked for.",
  ["geometry", "relations/mapped_item.rs", "relations/representation_map.rs", "traits/relative_placement.rs", "id/id_or.rs"],
  [("shape helpers", "geometry/product_definition_shape/mod.rs"), ("points and directions", "geometry/point/mod.rs"), ("placements", "traits/relative_placement.rs")],
  ["geometry constructors", "IFC::to_string"],
  "model checking: exhaustive exploration of geometry construction programs (choice tree, deviation-bounded) on the real constructors, written statements expanded and compared with the model",
  "Every program of the choice tree up to the deviation bound is run on the real constructors, and the written file is read by an independent reader and compared with the model.")

p("C15", "A built model has the hierarchy the program asked for",
  "A program that builds projects, sites, buildings, storeys, spaces and building elements through the builder interface yields a model in which exactly those objects exist, each with its name, type and identifier, and each aggregated or contained in exactly the object it was added to. Openings void the element they were cut into.",
  ["call_sequences", "configurations"], "for every builder program up to N choices away from the smallest one: objects added, order, nesting, whether scopes are entered and left early, optional arguments",
  "Tests build a few example models and compare mostly that they print.",
  ["ifc_builder", "relations", "meta/datamap/mod.rs"],
  [("builders", "ifc_builder"), ("relations written when a builder ends", "relations"), ("identifier allocation", "meta/datamap/mod.rs")],
  ["builder interface", "IFC::to_string", "relation statements of the written file"],
  "model checking: exhaustive exploration of builder programs (choice tree, deviation-bounded) against a reference model of the hierarchy",
  "Every program of the choice tree up to the deviation bound is run on the real builders, and the written file is read by an independent reader and compared with the model the program describes.")

p("C16", "Types and materials given to the builder are related to their objects",
  "Every object built with a type is related to exactly that type, and every object or type built with a material layer set or a constituent set is associated with exactly that set, holding the layers or constituents in the order given. No object is related to a type or material the program did not give it.",
  ["call_sequences"], "for every builder program up to N choices away from the smallest one, with several objects sharing or not sharing types and materials",
  "Tests use one type and one material per model, so mixing up two of them goes unseen.",
  ["ifc_builder", "materials", "relations"],
  [("type and material relations", "ifc_builder/storey.rs"), ("layer and constituent sets", "ifc_builder/materials.rs")],
  ["builder interface", "IFC::to_string"],
  "model checking: exhaustive exploration of builder programs (choice tree, deviation-bounded) against a reference model of types and materials",
  "Every program of the choice tree up to the deviation bound, several sharing patterns of types and materials included.")

p("C17", "Built objects have the shape and place the program gave them",
  "Every object built with a shape carries exactly one product shape with the profile, direction and depth the program gave. Its placement resolves to the position the program gave within the object it was added to.",
  ["call_sequences", "inputs"], "for every builder program up to N choices away from the smallest one, over shapes, profiles, offsets, rotations and nested placements",
  "Tests print one shape per kind and never resolve a nested placement.",
  ["ifc_builder", "geometry"],
  [("shape parameters", "ifc_builder/walls.rs"), ("placements", "geometry/local_placement")], ["builder interface", "IFC::to_string"],
  "model checking: exhaustive exploration of builder programs (choice tree, deviation-bounded) against a reference model of shapes and placements",
  "Every program of the choice tree up to the deviation bound, with placements composed by an independent reader of the file.")

p("C18", "Transforming an object moves that object and nothing else",
  "Applying translations, rotations and scalings to an object of a storey changes its shape by exactly that transformation, in the order applied. All other objects and relations stay as they were.",
  ["call_sequences"], "for every builder program with up to N transformations of any object, before and after other objects are added",
  "Tests transform one object once.",
  ["ifc_builder/transforms.rs", "geometry"],
  [("transform of a storey's objects", "ifc_builder/transforms.rs"), ("transformation operators", "geometry/uniform_transformations.rs")], ["builder interface", "IFC::to_string"],
  "model checking: exhaustive exploration of builder programs with transformations against a reference model of point coordinates",
  "Every program of the choice tree up to the deviation bound; probe points are mapped by the file's operators and by the model and compared.")

p("C19", "Every built model is a legal file",
  "Whatever program built it, a model is written with identifiers that are unique and ascending, references that all resolve to objects of an allowed kind, and global identifiers that are unique and well-formed. It loads without error, with every statement understood, and is written again as the same bytes.",
  ["call_sequences", "configurations"], "for every builder program up to N choices away from the smallest one",
  "Tests write a few models and never load them again.",
  ["lib.rs", "meta/datamap/mod.rs", "id", "ifc_builder"],
  [("identifier allocation", "meta/datamap/mod.rs"), ("global identifiers", "id/ifc_uuid.rs")], ["IFC::to_string", "IFC::from_str"],
  "model checking: exhaustive exploration of builder programs (choice tree, deviation-bounded), output reloaded by the real reader and an independent one",
  "Every program of the choice tree up to the deviation bound is written, checked, reloaded and rewritten.")

p("C21", "The extractor reports the relations of a file exactly",
  "For any set of relations in a file, the extractor reports for an object exactly the parts aggregated under it of the asked kind, the elements contained in it, the openings voiding it, the layers of the material layer set usages and the constituents of the constituent sets associated with it, and a type it is defined by. Each is reported once per mention, in the order of the relations' identifiers and within their lists.",
  ["inputs"], "for every set of up to three relations over a fixed set of objects, with every relating object and every list of related objects up to a length, repetitions included",
  "The extractor has one example and no test with two relations of the same kind.",
  ["ifc_extractor", "relations"], [("queries", "ifc_extractor/mod.rs")],
  ["IfcExtractor queries"],
  "model checking: explicit-state enumeration of relation sets, every query compared with brute force over the relations",
  "All single relations over the large alphabet, all pairs and triples over smaller ones, every query on every object.")

p("C22", "Resolving accessors give what the file says",
  "Following the references of a loaded object through the accessors - shapes, items, items of one kind, parent context, mappings of axes, profiles, solids, transformations and mapped items, points of lines, placement, shape and structure kind - gives exactly the objects and numbers the file refers to. Omitted attributes are given as absent.",
  ["inputs"], "for every geometry scene up to N choices away from the smallest one: product kinds, shapes, items, profiles, axes, operators, omitted attributes, nested mapped items, order of identifiers",
  "No test resolves a mapping; the example only prints.",
  ["geometry", "relations/mapped_item.rs", "traits", "objects/shared/product.rs"],
  [("mappings", "geometry/extruded_area_solid.rs"), ("mapped items", "relations/mapped_item.rs"), ("shapes", "objects/shared/product.rs")],
  ["mappings", "shapes", "items", "parent_context", "get_placement_id", "to_structure"],
  "model checking: exhaustive exploration of geometry scenes (choice tree, deviation-bounded), accessor results compared with the scene model",
  "Every scene of the choice tree up to the deviation bound.")

p("C23", "Constructors and setters put each value into its attribute",
  "An object made with a kind's constructor and any sequence of its setters is written with exactly those values in the attributes the schema gives them: the last value of a setter counts, a list grows in order, what was never set is absent. Objects given in place of references become objects of their own, referenced from that attribute; nothing else in the file changes.",
  ["call_sequences"], "for every constructible kind and every sequence of its setters up to length 4 (5), repetitions included",
  "Tests call each setter at most once, in one order, for a few kinds, and print the result.",
  ["objects", "geometry", "materials", "relations", "properties", "units", "traits", "meta/datamap"],
  [("setters of roots, objects, products", "objects/shared"), ("in-place references", "id/id_or.rs"), ("relations", "relations")],
  ["constructors", "setters", "DataMap::insert_new", "IFC::to_string"],
  "model checking: exhaustive enumeration of setter call sequences on the real objects, against a reference model of the attribute list",
  "Every setter sequence up to the length bound for 54 kinds, compared attribute by attribute with the written statement.")

p("C24", "Properties, units and authorship given to the builder end up in the file",
  "Property sets carry every value the program gave, with its name and measure, and are related to exactly the object they were set for. The project has the units, context, owner, application and time stamp the program gave, and all objects share that owner history.",
  ["call_sequences", "inputs"], "for every builder program up to N choices away from the smallest one, over property sets, values, heights, units, contexts, owners and applications",
  "Tests print a property set once and never look at whom it is related to.",
  ["properties", "units", "ifc_builder", "lib.rs"],
  [("property sets", "ifc_builder/properties.rs"), ("owner history and units", "ifc_builder/project.rs")], ["builder interface", "IFC::to_string"],
  "model checking: exhaustive exploration of builder programs (choice tree, deviation-bounded) against a reference model of properties and authorship",
  "Every program of the choice tree up to the deviation bound.")

p("C20", "The order of statements and the way of reading do not matter",
  "A file whose statements come in another order, with references forwards or backwards, is read as the same content and written as the same bytes. Reading from a file on disk and from memory give the same.",
  ["inputs", "schedules"], "for every permutation of small files and every rotation, reversal and transposition of the large one",
  "Sample files come in one order each.",
  ["lib.rs", "meta/datamap"], [("statement loop", "meta/datamap"), ("verification after the whole file is read", "lib.rs")],
  ["IFC::from_str", "IFC::from_file", "IFC::to_string"],
  "model checking: exhaustive enumeration of statement orders (all permutations of small files, all transpositions of large ones)",
  "All permutations up to the size bound.")

p("C25", "The public fields of a loaded object are the file's attributes",
  "Each public field of a loaded object, its own or one reached through what it extends, holds the value of the attribute it is named after, with omitted and inherited told apart. Assigning a field changes exactly that attribute of what is written and nothing else.",
  ["inputs", "call_sequences"], "for every public field of every entity kind, every form of its attribute, and every sequence of assignments up to a length",
  "Tests read a field of a loaded object only in a few places; an exchange that reading and writing both make is invisible to a round trip.",
  ["objects", "geometry", "relations", "materials", "properties", "units", "id"],
  [("attributes in order", "objects"), ("inherited fields", "objects/shared"), ("typed access", "meta/datamap")],
  ["IFC::from_str", "public fields", "IfcType::to_string"],
  "model checking: exhaustive enumeration of public field x attribute form, and of sequences of field assignments, on the loaded objects",
  "Every attribute tuple up to the deviation bound, every assignment sequence up to the depth.")
