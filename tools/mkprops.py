#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to make editing the long strings bearable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=("public API: load_obj / load_mtl return values",), hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

TOK = ["src/tokenizer/mod.rs", "src/tokenizer/obj.rs", "src/tokenizer/mtl.rs"]

prop("P01", "Loading is total: every input text returns Ok or Err",
 "For every input text, load_obj and load_mtl return, with either a result or an error. They never panic, abort, overflow the stack or run forever, whatever the characters, their number or their order.",
 ["inputs"], "every text (any Unicode characters, any length) given to either loader",
 "The tests run about 60 well-formed texts; a panic or a parser loop needs a particular character sequence (an out-of-range number, a stray slash, a lone sign, an unfinished line, a multi-byte character), and the space of texts is unbounded.",
 ["src/lib.rs"] + TOK + ["src/model.rs", "src/material.rs", "src/macros.rs"],
 [("every tokenizer alternative consumes input, so the fold over tokens makes progress", "src/tokenizer/obj.rs parse_obj, src/tokenizer/mtl.rs parse_mtl"),
  ("token_match! tests for emptiness before indexing", "src/macros.rs"),
  ("number conversion falls back instead of unwrapping", "src/tokenizer/mod.rs parse_digit/parse_float")])

prop("P02", "An OBJ document is loaded completely or refused, never partially",
 "If load_obj returns Ok, every statement line of the document was recognised and read in full, and the model contains what all of them say. A document with a line whose keyword is not supported, or with a supported statement whose arguments are missing, surplus or of the wrong kind, makes load_obj return Err, wherever in the document that line stands.",
 ["inputs", "histories"], "every sequence of well-formed lines with a malformed or unsupported line at any position, and every malformation of every statement",
 "No test loads a malformed or unsupported line at all; the guarantee is about every position of every kind of bad line among every kind of good line.",
 ["src/lib.rs", "src/model.rs", "src/tokenizer/obj.rs"],
 [("statements are parsed line by line and each line must be consumed entirely", "src/lib.rs load_obj, src/model.rs parse"),
  ("statement parsers (arity and argument kinds)", "src/model.rs parse_vertex .. parse_texture_map")])

prop("P03", "An MTL document is loaded completely or refused, never partially",
 "If load_mtl returns Ok, every statement line of the document was recognised and read in full, and the materials contain what all of them say. A document with a line whose keyword is not supported, or with a supported statement whose arguments are missing, surplus or of the wrong kind (including a switch value other than on or off), makes load_mtl return Err, wherever in the document that line stands.",
 ["inputs", "histories"], "every sequence of well-formed lines with a malformed or unsupported line at any position, and every malformation of every statement and option",
 "No test loads a malformed or unsupported material line; the guarantee is about every position of every kind of bad line among every kind of good line.",
 ["src/lib.rs", "src/material.rs", "src/tokenizer/mtl.rs"],
 [("statements are parsed line by line and each line must be consumed entirely", "src/lib.rs load_mtl, src/material.rs parse"),
  ("statement and option parsers (arity and argument kinds)", "src/material.rs parse_new_material .. parse_color_type")])

prop("P04", "A number means the same value wherever and however it is written",
 "In every numeric position of both formats, a decimal literal (optional sign, digits with or without a point, optional exponent) is read as the single-precision value nearest to it. An index or other integer argument is read as exactly the integer written. An integer argument that does not fit its field, and anything else that is not a number, is never replaced by some other value: the loader returns Err.",
 ["inputs"], "every numeric literal in every numeric argument position of every statement of both formats",
 "Tests try 12 short literals on the tokenizer and a few dozen inside documents, with at most 7 digits and one exponent; sign, leading or trailing point, exponent forms, leading zeros, rounding and range limits multiply.",
 ["src/tokenizer/mod.rs", "src/lib.rs"],
 [("parse_float, parse_digit", "src/tokenizer/mod.rs"), ("get_token_float, get_token_int, get_opt_token_float_opt", "src/lib.rs")])

prop("P05", "Vertex, normal and texture lists mirror their statements one to one",
 "The k-th vertex, normal or texture coordinate of the loaded model is what the k-th v, vn or vt statement says: components in the order written, and an optional component (w of v; v and w of vt) present exactly if it was written. No other statement adds, removes, reorders or alters entries of these three lists.",
 ["inputs", "histories"], "every sequence of statements of any length, with every arity of v, vn and vt",
 "Tests load two cubes and a handful of single statements; interleavings with other statements, long lists and mixed arities are untested.",
 ["src/model.rs"], [("parse_vertex, parse_vertex_normal, parse_vertex_texture and the fold that collects them", "src/model.rs")],
 [("vertices, normals, textures", "lists indexed by every face, line and point", "src/model.rs Model")])

prop("P06", "Faces, lines and points keep every reference in its own slot, in order",
 "The elements of a loaded face are, one for one and in order, the references written on its f statement: v, v/vt, v//vn and v/vt/vn give exactly those indices and leave the unwritten ones absent, a trailing slash counts as unwritten, and forms may be mixed in one face. Likewise a line has the v or v/vt references of its l statement and a point set has the indices of its p statement. This holds for any number of references.",
 ["inputs"], "every f, l and p statement: any number of references, every mix of reference forms, any index values",
 "Tests try six faces of at most 4 references and three l/p statements; mixes of forms, counts and trailing slashes (three tests are ignored as failing) are not covered.",
 ["src/model.rs", "src/tokenizer/obj.rs"], [("parse_face, parse_line, parse_point", "src/model.rs"), ("slash tokens", "src/tokenizer/obj.rs")])

prop("P07", "Relative references name the entry that many places back at that point",
 "A negative index on an f, l or p statement that reaches back to an existing entry is loaded as the positive 1-based index of that entry, counted from the end of the list it refers to (v, vt or vn) as it stands at that statement. Data statements that follow do not change what was meant, and positive indices are loaded as written.",
 ["inputs", "histories"], "every interleaving of v, vt, vn with f, l, p statements using negative references in any slot",
 "The one test for negative references is ignored as failing, and it never interleaves data with faces.",
 ["src/model.rs"], [("resolution of negative indices against list lengths in the fold", "src/model.rs parse")],
 [("vertices/textures/normals length", "what relative references count from", "src/model.rs Model")])

prop("P08", "Every element belongs to exactly the groups active at its statement",
 "Each face, line and point appears exactly once under each group named by the latest g statement before it, under \"default\" if there was none, and under no other group. Within a group, faces, lines and points each keep document order, also when the group is left and entered again, and the set of known groups is \"default\" plus every group named so far.",
 ["histories"], "every sequence of g statements (one or more names, repeats, re-entry, returning to default) interleaved with elements and other statements",
 "Only one test mentions a group and it never loads an element in it; membership is a property of statement histories.",
 ["src/model.rs"], [("group tracking in the fold over statements", "src/model.rs parse"), ("parse_group", "src/model.rs")],
 [("current_group", "names made current by the latest g statement", "src/model.rs Model"), ("faces/lines/points/groups maps", "per-group contents", "src/model.rs Model")])

prop("P09", "Each face carries the smoothing group in force at its statement",
 "A face's smoothing group is the number on the latest s statement before it, 0 if there was none or the latest says off. Changing groups, materials or anything else leaves the smoothing group in force unchanged, and a later s statement never alters faces already read.",
 ["histories"], "every sequence of s statements interleaved with faces, groups and all other statements",
 "No test contains an s statement.",
 ["src/model.rs"], [("parse_smoothing and the smoothing state in the fold", "src/model.rs")],
 [("current_smoothing_group", "number of the latest s statement", "src/model.rs Model")])

prop("P10", "Group settings apply to the active groups only, last one wins, and stay",
 "usemtl, usemap, bevel, c_interp, d_interp and lod set the material name, texture map (none for off), switches and level of detail of exactly the groups active at that statement, and the last such statement while a group is active wins for that group. Settings of a group are kept when it is left and entered again, and settings a group never received keep their defaults (empty material name, switches off, level 0, no texture map).",
 ["histories"], "every sequence of setting statements and g statements, including re-entered groups and several active groups",
 "Tests check one material name of the default group; no test checks bevel, c_interp, d_interp, lod or usemap at all, or a setting after a change of group.",
 ["src/model.rs"], [("setting arms of the fold over statements", "src/model.rs parse"), ("parse_material, parse_texture_map, parse_bevel, parse_c_interp, parse_d_interp, parse_lod", "src/model.rs")],
 [("groups", "settings by group name", "src/model.rs Model")])

prop("P11", "Model-wide attributes collect all libraries and the last shadow/trace file",
 "The material and texture libraries of a model are the names given on all mtllib and all maplib statements, each list in document order. The shadow and trace objects are the names on the latest shadow_obj and trace_obj statement, absent if there is none. No other statement, o included, affects these four attributes.",
 ["histories"], "every sequence of mtllib, maplib, shadow_obj, trace_obj statements interleaved with all others",
 "Tests check one mtllib; maplib, shadow_obj and trace_obj are never loaded.",
 ["src/model.rs"], [("library and object arms of the fold over statements", "src/model.rs parse"), ("parse_mat_lib, parse_texture_lib, parse_shadow_obj, parse_trace_obj", "src/model.rs")])

prop("P12", "Names and file names are loaded exactly as written",
 "A name or file name given to usemtl, usemap, mtllib, maplib, shadow_obj, trace_obj or newmtl is loaded as the text after the keyword up to the end of the line, without surrounding blanks or trailing comment; it is never mistaken for a number, keyword, reference or path (12, 007, 1e5, s, 1/2, ./a.mtl). The names of a g statement are the words on it, and a file, channel or type name on a material map or spectral colour is a single word that is not itself a number (alone or with a # right behind it), option, spectral or xyz. Letter case, digits, punctuation and non-ASCII characters are kept, wherever in the name they stand (01_x.png, -a, 3d, a#1).",
 ["inputs"], "every name text in every name position of both formats",
 "Tests use about ten alphabetic names; names that look like numbers, keywords, comments or paths need character-level enumeration.",
 ["src/tokenizer/obj.rs", "src/tokenizer/mtl.rs", "src/model.rs", "src/material.rs"],
 [("string tokens and the order of tokenizer alternatives", "src/tokenizer/obj.rs, src/tokenizer/mtl.rs"), ("get_token_string", "src/lib.rs")])

prop("P13", "Layout of an OBJ document carries no meaning",
 "Comments (whole-line or trailing), blank lines, indentation, trailing blanks, runs of blanks or tabs between arguments, LF or CR LF line ends, a missing final line end and the letter case of keywords and of on/off do not change what load_obj returns.",
 ["inputs"], "every document, every combination of layout choices at every place in it",
 "Tests contain some indented and commented documents; each layout choice must be harmless after and before every kind of statement and argument, in combination.",
 ["src/tokenizer/obj.rs", "src/lib.rs"], [("whitespace, comment and keyword alternatives", "src/tokenizer/obj.rs parse_obj"), ("line splitting", "src/lib.rs load_obj")])

prop("P14", "Layout of an MTL document carries no meaning",
 "Comments (whole-line or trailing), blank lines, indentation, trailing blanks, runs of blanks or tabs between arguments, LF or CR LF line ends, a missing final line end and the letter case of keywords, options and of on/off do not change what load_mtl returns.",
 ["inputs"], "every document, every combination of layout choices at every place in it",
 "Tests contain one commented material and only blanks and LF as separators; combinations and positions are unbounded.",
 ["src/tokenizer/mtl.rs", "src/lib.rs"], [("whitespace, comment and keyword alternatives", "src/tokenizer/mtl.rs parse_mtl"), ("line splitting", "src/lib.rs load_mtl")])

prop("P15", "One material per newmtl, and each statement changes only its own material",
 "load_mtl returns one material per newmtl statement, in document order and under its own name, equal names included; a document without statements gives none. Every other statement sets only its own attribute of only the material of the latest newmtl before it, the last such statement for that material wins, and attributes never set stay absent. A statement before the first newmtl makes load_mtl return the error that says a new material was expected.",
 ["histories"], "every sequence of newmtl and attribute statements",
 "Every test document holds exactly one material, starts with newmtl and sets each attribute at most once.",
 ["src/material.rs"], [("material::parse: element loop", "src/material.rs parse"), ("Material::set_from_material_element", "src/material.rs")],
 [("materials list", "last element receives statements", "src/material.rs parse")])

prop("P16", "Material colours keep their kind, components and defaults",
 "Ka, Kd, Ks, Ke and Tf each set exactly their own colour of the material: three numbers are an RGB colour in that order, spectral is a file name with a factor that is 1 when omitted, and xyz is a CIE XYZ colour whose omitted second or third component equals its first.",
 ["inputs"], "every colour statement in every form with every component value",
 "Tests cover RGB and spectral for some of the five statements; xyz and Ke appear in no test, Tf only in a token test.",
 ["src/material.rs"], [("parse_color_type and the five colour statements", "src/material.rs")])

prop("P17", "Scalar material attributes reach the right field with the right kind",
 "Ns, Tr, sharpness, Ni and illum set exactly the specular exponent, transparency, sharpness, index of refraction and illumination model; d sets the dissolve as a plain factor and d -halo as a halo factor; map_aat sets anti-aliasing to on or off.",
 ["inputs"], "every scalar statement with every value",
 "Tr, sharpness, d -halo and map_aat appear in no loaded test document.",
 ["src/material.rs"], [("parse_specular_exponent .. parse_illumination_model, parse_disolve, parse_anti_alias_map", "src/material.rs"), ("get_on_off_from_str", "src/lib.rs")])

prop("P18", "Texture map options reach the right map and field, in any order",
 "map_Ka, map_Kd, map_Ks, map_Ns, map_d, disp (or map_disp), decal, bump and refl set exactly their own map of the material with the file name written; -blendu, -blendv, -cc, -clamp, -imfchan, -mm, -o, -s, -t and -texres set exactly their own field of that map, with optional components of -o, -s and -t present only if written. The order of options does not matter, a repeated option takes its last value, an option not written stays absent, and nothing carries over from one map statement to another; an option that a map kind has no field for, and -boost, are accepted without effect.",
 ["inputs", "histories"], "every map statement with every sequence of options and arguments, after any other map statement",
 "Loaded test documents use -s, -mm, -bm and -type, one option per map; option combinations, orders and repeats are untested and most options appear only in token tests.",
 ["src/material.rs"], [("parse_options and parse_option_*", "src/material.rs"), ("ColorCorrectedMap::new, NonColorCorrectedMap::new", "src/material.rs")])

prop("P19", "Bump multiplier and reflection type reach only bump and reflection maps",
 "bump sets the bump map with its -bm multiplier, if written, beside its map options; refl sets the reflection map with its -type name (empty if not written) beside its map options. -bm and -type combine with every other option in any order and have no effect on other maps.",
 ["inputs"], "every bump and refl statement with every sequence of options",
 "Two test documents use -bm and -type, alone.",
 ["src/material.rs"], [("BumpMap::new, ReflectionMap::new", "src/material.rs"), ("parse_bump_map, parse_reflection_map", "src/material.rs")])

prop("P20", "Appending statements to an OBJ document only extends the model",
 "Loading a document followed by more statements gives a model in which everything the document alone gives is unchanged: its vertex, normal, texture and library lists and, for every group, its face, line and point lists are prefixes of the longer document's. If the document alone is refused, so is every continuation of it, and if both parts load and the second starts by naming its group and smoothing group and uses no relative references, the longer document's lists are the concatenations of both parts' lists.",
 ["histories"], "every pair of a document and a continuation",
 "A relation between loads of different documents; no test loads two documents and compares them.",
 ["src/model.rs", "src/lib.rs"], [("the fold over statements only pushes", "src/model.rs parse")])

prop("P21", "MTL documents compose: concatenation loads as the concatenated materials",
 "If two MTL documents load and the second starts with newmtl, loading the first followed by the second gives the first's materials followed by the second's, unchanged. If either is refused on its own for anything but a missing newmtl, so is the concatenation.",
 ["histories"], "every pair of documents",
 "A relation between loads of different documents; no test loads two documents and compares them.",
 ["src/material.rs", "src/lib.rs"], [("the element loop only touches the last material", "src/material.rs parse")])

prop("P22", "Loading is a pure function of the text",
 "What load_obj and load_mtl return depends on the given text only: not on earlier or interleaved loads of any documents of either format, successful or refused, on this or another thread, nor on whether a logger is installed or what that logger does, another load included.",
 ["schedules", "histories"], "every history and every interleaving of loads over threads, with every logger behaviour",
 "Tests load each document once and compare no two loads; hidden shared state shows only after particular histories.",
 ["src/lib.rs", "src/tokenizer/mod.rs", "src/model.rs", "src/material.rs"], [("no statics, no interior mutability, parsers are built per call", "all of src")])

prop("P23", "The cost of loading grows in proportion to the document",
 "The memory that loading a document requests in total and the instructions it takes are at most proportional to its number of statements: doubling the number of statement lines at most doubles them, up to a constant factor close to one, for documents of every kind of statement in either format, whether or not their lines, names and numbers repeat.",
 ["inputs"], "every statement kind and every document length",
 "Tests load at most 20 lines, where quadratic cost is invisible; a mesh has 10^5 to 10^7 lines.",
 ["src/lib.rs", "src/tokenizer/mod.rs"], [("token sets are per line, so that copying the remaining tokens is bounded by the line", "src/lib.rs, src/tokenizer/mod.rs TokenSet")],
 observe=("bytes requested from the global allocator during load_obj / load_mtl", "instructions executed by a process that loads one document"))

prop("P24", "Every element's group is a known group, and no group has an empty list",
 "In a loaded model, groups has an entry for default and for exactly every name that a g statement gave. The maps faces, lines and points have an entry for a group exactly if at least one face, line or point statement came while that group was active, so every group that has elements is also in groups, and a group without faces is absent from faces rather than present with an empty list.",
 ["histories"], "every sequence of group, element, setting and other statements",
 "Tests look up the few groups they expect; an entry too many or too few in one of four maps is seen only by comparing all keys after all histories.",
 ["src/model.rs"], [("Model::default creates the default group", "src/model.rs Default for Model"), ("entries are made by g statements and by elements", "src/model.rs parse")],
 [("Model.groups, faces, lines, points", "keys of the four maps", "src/model.rs Model")])

prop("P25", "A refused document reports its first unreadable line, whatever follows",
 "The error of a refused document is that of its first unreadable line: the same variant of ObjError as when a document has only that line (for materials, behind a newmtl), whatever readable lines precede it. Whatever lines follow it, readable or not, leave the error unchanged, its text included, and the text is never empty.",
 ["histories", "inputs"], "every document with a first unreadable line of any kind, after any readable lines and before any continuation",
 "No test looks at an error at all; which of several bad lines is reported is a relation between loads of different documents.",
 ["src/lib.rs"], [("load_obj and load_mtl stop at the first line that fails", "src/lib.rs load_obj, load_mtl"), ("ObjError wraps the error of the tokenizer or of the parser", "src/lib.rs ObjError")])

prop("P26", "The returned values compare, copy and convert field by field",
 "Two values of a public type (Vertex to Group on the model side; Material, its colours, maps and options on the other) are equal exactly if all their fields are, and a clone equals its original in every field, for whole models as well. Constructors and conversions from and to tuples keep every field in its documented order, and defaults are zero, empty or absent; so two materials loaded from documents that say the same are equal, and those from documents that differ in one attribute are not.",
 ["inputs"], "all pairs of values of each type, over grids of field values with two fields deviating from each base",
 "Tests compare a few loaded values with equal ones; an equality that ignores a field or is approximate makes such tests weaker instead of failing them.",
 ["src/model.rs", "src/material.rs"], [("derived PartialEq, Clone, Default, Constructor, From, Into", "src/model.rs, src/material.rs type definitions")],
 observe=("public types of the crate as values", "load_mtl return values"))

prop("P27", "Loading performs no I/O and starts nothing: it only computes",
 "load_obj and load_mtl never open, read, write or look up a file, not even one whose name is in the document, write nothing to a standard stream, use no network, and start no thread or process. They only compute and use memory, for every document, good or refused.",
 ["inputs", "histories"], "every document, whatever names, statements or mistakes are in it",
 "The documentation promises that named files are not opened. Tests see return values only; a file access or an output that happens for a certain statement or error is invisible to them.",
 ["src/lib.rs", "src/model.rs", "src/material.rs"] + TOK, [("file names are stored as text", "src/model.rs parse, src/material.rs"), ("diagnostics go through the log facade only", "log::error! in src/model.rs, src/material.rs")],
 observe=("system calls made during load_obj / load_mtl",))

prop("P28", "Loading leaves nothing behind: dropping the result frees all its memory",
 "Once the result of a load, model, materials or error, is dropped, no memory of that load stays in use. Loading the same document again and again, or ever more documents that are all different, does not make the memory in use grow.",
 ["inputs", "histories"], "every document, and every number of repeated or distinct loads",
 "Tests are short processes that load a document once and never count memory; a leak or an ever growing cache shows in a long-running process only.",
 ["src/lib.rs", "src/model.rs", "src/material.rs"] + TOK, [("no statics and no leaked allocations; all data is owned by the result", "all of src")],
 observe=("bytes allocated less bytes freed, at the global allocator",))

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
