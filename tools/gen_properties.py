#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or ["jbcrs::basic::parse"], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NO_PARSE = "No existing test calls the class-file parser at all; "
DEC = "src/basic/parser/decode.rs"; PM = "src/basic/parser/mod.rs"; CODE = "src/basic/parser/code.rs"
CLS = "src/basic/parser/class.rs"; MET = "src/basic/parser/method.rs"; ANN = "src/basic/parser/annotation.rs"
CP = "src/basic/constpool.rs"; TREE = "src/basic/tree.rs"; TY = "src/types.rs"

prop("C01", "Parsing never crashes, overflows the stack or hangs, for any input",
 "For every byte sequence, parsing it as a class file terminates with either a class and its constant pool or an error: it never panics (arithmetic overflow included), aborts, overflows the stack of an ordinary 2 MiB thread however deeply the input nests, or runs on without consuming input. Iterating over, indexing (with any index) and printing whatever a successful parse returned does not crash either.",
 ["inputs"], "all byte sequences (truncated, corrupted, with lying counts, lengths, switch bounds, and arbitrarily deep nesting)",
 NO_PARSE + "the decoder tests only read well-formed integers, so no malformed input is ever tried.",
 [DEC, PM, CODE, CLS, MET, ANN, CP], [("every read is bounds-checked against the innermost limit", DEC+" Decoder::check"), ("switch bounds, counts and nesting are validated before use", CODE+" parse_instruction; "+ANN+" parse_element_value")],
 ["jbcrs::basic::parse", "jbcrs::basic::Pool::{get,iter}"])
prop("C02", "Memory used while parsing is bounded by the size of the input",
 "While parsing an input of n bytes, the heap memory held at any one moment never exceeds 32 MiB plus 1 KiB times n, whatever element counts, lengths, switch bounds or nesting depth the input declares. A few hundred bytes can therefore never make the parser ask for gigabytes. When the result is dropped, all of it is released: however many inputs were parsed before, no more than a fixed small amount stays allocated.",
 ["inputs"], "all inputs, in particular those whose declared counts exceed what they contain",
 NO_PARSE + "no test measures memory, and only inputs with declared counts far above their content expose it.",
 [PM, CODE, CLS, ANN], [("vectors are pre-sized from declared counts that are bounded or capped", "Vec::with_capacity sites in src/basic/parser")])
prop("C03", "Each constant keeps the pool index the class file gives it",
 "After a successful parse, looking up index i in the returned constant pool yields exactly the constant the class file stores under index i: entries are numbered from 1 in file order, a long or double takes two indices, and equal constants occurring more than once keep their separate indices. Index 0, the unusable second index of a long or double and every index past the last entry give an invalid-entry error naming that index, and the pool's length equals the count declared in a well-formed file.",
 ["inputs"], "all constant pools: every sequence of entry kinds, with and without equal entries and two-slot entries, up to 65535 indices",
 NO_PARSE + "the pool test pushes five items by hand and never goes through the file's own numbering.",
 [PM, CP], [("constant pool reader advances by one or two indices per entry", PM+" read_constant_pool"), ("index to slot mapping", CP+" Pool::get")],
 ["jbcrs::basic::parse", "jbcrs::basic::Pool::get", "jbcrs::basic::Pool::len"])
prop("C04", "Every constant kind is decoded to its kind with its exact value",
 "Every constant pool entry tag defined by the Java SE 9 JVM specification (1, 3-12, 15, 16, 18-20) is decoded to the item of that kind, each operand in its own place and with its exact big-endian value; ints and longs keep their sign, floats and doubles their bit pattern (NaN payloads and signed zeros included), and method handle kinds 1-9 map to the nine behaviours in order.",
 ["inputs"], "all entry tags with all operand values",
 NO_PARSE + "integer reads are sampled at a handful of values and floats, references and handles are never decoded.",
 [PM, DEC, CP], [("tag dispatch", PM+" read_constant_pool"), ("big-endian reads", DEC+" Decoder::read_*")],
 ["jbcrs::basic::parse", "jbcrs::basic::Pool::get"])
prop("C05", "Modified UTF-8 is decoded exactly and invalid sequences are rejected",
 "Strings in a class file (UTF-8 constants and the source debug extension) decode to exactly the text they encode in the JVM's modified UTF-8: one-, two- and three-byte forms, NUL as two bytes, and supplementary characters as six-byte surrogate pairs, for every Unicode scalar value and every mixture, consuming exactly the declared number of bytes. A zero byte, a lead byte 0x80-0xBF or 0xF0-0xFF, a missing or malformed continuation byte, an unpaired surrogate, or a sequence cut off by the declared length is rejected with the invalid-UTF-8 error and never decoded to other text.",
 ["inputs"], "all byte strings of all declared lengths",
 "The only string test decodes the 13 ASCII bytes of 'Hello, world!'.",
 [DEC, PM], [("sequence classification and surrogate pair recombination", DEC+" Decoder::read_str")])
prop("C06", "Every JVM instruction is decoded with its exact operands",
 "Every opcode of the Java SE 9 instruction set (including breakpoint, impdep1/2 and all wide forms: loads, stores, iinc, ret) is decoded to the instruction it denotes, with each operand read at its specified width and signedness and in its specified order, so that no two different instructions are confused. Narrow and wide forms of one instruction give the same instruction with the same operand value, and opcodes or wide targets the specification does not define, and invalid primitive array codes, are rejected.",
 ["inputs"], "all 256 opcodes, all wide targets, all operand values, all switch tables",
 NO_PARSE + "no test decodes a single instruction.",
 [CODE, TREE, DEC], [("opcode table", CODE+" parse_instruction")])
prop("C07", "Instructions are keyed by byte offset and tile the code array exactly",
 "The instructions of a method are keyed by the byte offset at which each starts, the offset being counted from the first byte of that method's own code; together they cover the declared code length exactly, without gap, overlap or loss, for any order of instructions of any size. Switch padding depends only on the switch's offset within its method's code (aligned to four), wherever that code lies in the file, and an instruction that would run past the declared code length, or empty code, is rejected.",
 ["inputs"], "all instruction sequences, all code lengths, all alignments and file positions",
 NO_PARSE + "offsets, padding and the end of the code array are only exercised by sequences of several instructions.",
 [CODE], [("location tracking and code limit", CODE+" parse_code, parse_instruction")],
 state=[("code_location", "offset of the instruction being decoded", CODE+" parse_code")])
prop("C08", "A method's code attribute is reproduced completely and in order",
 "For every code attribute, the reported maximum stack, maximum locals, exception table and nested attributes equal those in the file: each exception entry keeps its start, end, handler and catch type, and entries and nested attributes keep their number and order. Several methods with code in one class do not influence each other.",
 ["inputs"], "all code attributes: any number of exception entries and nested attributes, any values",
 NO_PARSE + "a swapped or dropped field only shows when whole structures are compared.",
 [CODE, PM], [("code attribute reader", CODE+" parse_code")])
prop("C09", "Line number, local variable, parameter and exception tables are exact",
 "The line number table, local variable table, local variable type table, method parameters (whose count is a single byte) and declared exceptions of a class file are reproduced entry by entry: same number, same order, every field (including 16-bit values up to 65535) in its own place. Consecutive tables and empty tables are handled alike.",
 ["inputs"], "all tables of all sizes with all field values",
 NO_PARSE + "none of these tables is ever built in a test.",
 [MET, PM], [("table readers", MET+" parse_line_number_table .. parse_method_parameters")])
prop("C10", "Stack map frames are decoded for every frame type and verification type",
 "For each of the 256 frame type bytes, the stack map table yields the frame the JVM specification defines, with its exact offset delta, chop count (1-3), appended locals (1-3), full-frame locals and stack, and verification types 0-8 including the operand of object and uninitialized types; the reserved frame types 128-246 and verification types above 8 are rejected with an error naming the byte. Frames keep their order and number.",
 ["inputs"], "all sequences of frames over all frame types and verification types",
 NO_PARSE + "256 frame types, each with variable-length content, are never decoded.",
 [MET, TREE], [("frame type ranges", MET+" parse_stack_map_table"), ("verification types", MET+" parse_verification_type")])
prop("C11", "Annotations and element values are reproduced exactly",
 "Visible, invisible, parameter and default annotations are reproduced exactly as encoded: each element value tag (B C D F I J S Z s c e @ [) yields its own kind with its own operands, nested annotations and arrays keep their structure at any moderate depth (at least 16 levels), and annotations, parameters and name/value pairs keep their number and order. The visible and the invisible attribute never change places, and unknown tags are rejected naming the tag.",
 ["inputs"], "all annotation trees over all element value kinds",
 NO_PARSE + "recursive structures have unboundedly many shapes and none is tested.",
 [ANN, PM], [("element value reader", ANN+" parse_element_value"), ("annotation readers", ANN+" parse_annotation(s), parse_parameter_annotations")])
prop("C12", "Type annotations: every target, path and annotation is reproduced exactly",
 "Each type annotation is reproduced with its target kind (all 22 target types of the JVM specification, each with its own operand layout; the local variable targets have a two-byte table length), its type path (array, nested, wildcard, type argument steps with their indices) and its annotation. Undefined target types and path kinds are rejected with the error for that case, and consecutive type annotations keep their number and order.",
 ["inputs"], "all target types with all operands, all paths, all sequences",
 NO_PARSE + "no type annotation is decoded in any test.",
 [ANN, TREE], [("target and path readers", ANN+" parse_target_type, parse_local_variable, parse_type_path")])
prop("C13", "Class-level and marker attributes are recognised and reproduced exactly",
 "ConstantValue, Signature, SourceFile, SourceDebugExtension, Deprecated, Synthetic, InnerClasses, EnclosingMethod and BootstrapMethods attributes are each recognised under exactly their JVM name and reproduced with all their fields in their own places; inner class entries, bootstrap methods and each bootstrap method's own arguments keep their number and order.",
 ["inputs"], "all contents of these attributes, all table sizes",
 NO_PARSE + "attribute names and layouts are never exercised.",
 [CLS, PM], [("attribute dispatch by name", PM+" parse_attributes"), ("class attribute readers", CLS)])
prop("C14", "Module, ModulePackages and ModuleMainClass attributes are exact",
 "A module declaration is reproduced exactly: its name, flags and version, then its requires, exports, opens, uses and provides tables, each entry with its own index, flags, version and its own list of targets, in file order and without one table leaking into another. Module packages and the module main class are likewise reproduced exactly.",
 ["inputs"], "all module declarations: every combination of table sizes and target list sizes",
 NO_PARSE + "five consecutive variable-length tables with nested lists are never decoded.",
 [CLS, PM], [("module readers", CLS+" parse_module, parse_module_packages")])
prop("C15", "Unknown attributes are kept verbatim and never disturb what follows",
 "An attribute whose name is not one the library knows is kept as its name index and exactly its bytes, of any length including zero and more than 65535, and everything after it is parsed as if it were not there. Known attributes mean the same wherever they occur (on the class, a field, a method or a code attribute), names are compared exactly (case, prefix and length), and each attribute list keeps its number and order.",
 ["inputs"], "all attribute lists over known and unknown names at all four locations",
 NO_PARSE + "attribute lists mixing kinds and locations are never parsed.",
 [PM, DEC], [("attribute loop and limit per attribute", PM+" parse_attributes"), ("limit bookkeeping", DEC+" Decoder::limit, remove_limit")])
prop("C16", "Declared lengths are binding: no structure reads past or stops short",
 "A known attribute whose declared length is smaller or larger than its actual content, a code length that does not end on an instruction boundary, and a nested attribute that extends beyond the structure enclosing it are all rejected, even when the bytes beyond the boundary would have made sense. What is accepted has consumed exactly the declared bytes at every nesting level.",
 ["inputs"], "all attributes at all nesting levels, with every difference between declared and actual length",
 NO_PARSE + "the limit mechanism (limit, remove_limit, skip) is untested.",
 [DEC, PM, CODE], [("limits", DEC+" Decoder::limit, remove_limit, check")],
 state=[("limit", "end of the innermost enclosing structure", DEC), ("cursor", "shared read position", DEC)])
prop("C17", "A truncated class file is always rejected as truncated",
 "If a byte sequence is a complete class file with nothing after it, then every proper prefix of it, down to the empty one, is rejected with the end-of-data error and never yields a class. Input of at least four bytes not starting with 0xCAFEBABE is rejected as not being a class file, whatever follows.",
 ["inputs"], "all class files and all cut points; all 4-byte headers",
 NO_PARSE + "no test cuts an input short.",
 [DEC, PM], [("bounds check on every read", DEC+" Decoder::check, read_bytes"), ("magic check", PM+" parse")])
prop("C18", "Class header, interfaces, fields and methods are reproduced in order",
 "Minor and major version, access flags, this and super class, interfaces, fields and methods are reproduced exactly as the file has them, all counts from 0 to 65535 included: each field and method with its own flags, name, descriptor and its own attributes, in file order, and fields never confused with methods.",
 ["inputs"], "all class files: every number of interfaces, fields, methods and attributes",
 NO_PARSE + "member order and ownership of attributes show only on whole classes with several members.",
 [PM, TREE], [("class reader", PM+" parse, parse_fields, parse_methods")])
prop("C19", "Access flags keep every bit and are named as in the JVM specification",
 "For all 65536 flag values and every place where the format has flags (class, field, method, inner class, method parameter, module, requires, exports, opens), the flags reported have exactly the bits of the file. Each named flag denotes exactly the bit the JVM specification gives it, so that testing for a name answers whether that bit is set; in particular module and mandated are 0x8000 and are independent of public.",
 ["inputs"], "all 16-bit flag values at all flag positions",
 NO_PARSE + "no test looks at flags.",
 [TREE, PM, CLS, MET], [("flag constants", TREE+" AccessFlags"), ("flag decoding", "from_bits_truncate sites in src/basic/parser")],
 ["jbcrs::basic::parse", "jbcrs::basic::AccessFlags"])
prop("C20", "Undefined encodings are rejected with the error that describes them",
 "In an otherwise well-formed file, an undefined constant tag or method handle kind, opcode, wide target, primitive array code, frame type, verification type, element value tag, target type or type path kind is never accepted, and the error returned is the one for that case carrying the offending value (the index of the entry, the opcode and its offset in its method's code, or the byte). An attribute name index that does not denote a UTF-8 constant is rejected with the invalid-entry error naming that index.",
 ["inputs"], "all 256 values at every tag position, at every position within its structure",
 NO_PARSE + "error paths of the parser are untested.",
 [PM, CODE, MET, ANN, "src/result.rs"], [("fallback arms of the tag dispatches", "src/basic/parser/*.rs"), ("errors", "src/result.rs Error")])
prop("C21", "The constant pool answers every history of pushes and lookups correctly",
 "Starting from any pool (new, pre-sized, default or parsed from a file), pushing an item that is not in the pool returns the next free index (1 for an empty pool) and advances the length by two for longs and doubles and by one otherwise; afterwards and for ever that index yields that item, and earlier indices are unaffected. At every moment index 0, second slots of longs and doubles and every index not below the length give the invalid-entry error for that index, and the pool is empty exactly when nothing was pushed.",
 ["histories"], "all sequences of push and lookup operations on any pool",
 "One fixed sequence of five pushes and four lookups is tested.",
 [CP], [("push and get", CP+" Pool::push, get"), ("two-slot items", CP+" Item::is_double")],
 ["jbcrs::basic::Pool"], [("length", "next free index", CP), ("by_index", "slots", CP), ("by_entry", "reverse map", CP)])
prop("C22", "Pushing an equal item reuses its index; different items never share one",
 "While the pool is not full, pushing an item equal to one already in it returns an index at which that item is stored and changes nothing, while an item that differs in kind or in any component gets an index of its own; floats and doubles are compared by bit pattern. Item equality is therefore an equivalence that looks at every component, and equal items always have equal hashes.",
 ["histories", "inputs"], "all pairs of items and all push histories, also on pools parsed from files",
 "The existing test re-pushes one integer; 17 kinds with up to two components each are not compared.",
 [CP], [("hand-written Hash and PartialEq", CP+" impl Hash/PartialEq for Item"), ("entry lookup on push", CP+" Pool::push")],
 ["jbcrs::basic::Pool::push", "jbcrs::basic::Item"])
prop("C23", "A full constant pool rejects further items and stays intact",
 "The length of a pool never exceeds 65535: pushing a new item that does not fit (no index left, or only one left for a long or double) fails with the pool-too-large error, without panic or wrap-around. After a failed push the pool is exactly as before: length, every lookup and the iteration are unchanged, and a smaller item that still fits can be pushed.",
 ["histories"], "all push histories reaching the neighbourhood of the limit, from either parity",
 "Reaching the limit takes 65534 pushes; no test comes near it.",
 [CP], [("limit check", CP+" Pool::push")], ["jbcrs::basic::Pool"])
prop("C24", "Iterating a pool visits every item once, in order, with its own index",
 "Iterating over a constant pool, after any history and for any size up to the maximum, yields each stored item exactly once, in ascending index order, paired with the very index at which a lookup returns that item; unusable second slots are skipped and the iteration then ends, and stays ended.",
 ["histories"], "all pools reachable by pushes or parsing",
 "The iterator's test is commented out in the repository.",
 [CP], [("PoolIter", CP+" PoolIter::next")], ["jbcrs::basic::Pool::iter"])
prop("C25", "Typed lookups return the right text or an error, never the wrong kind",
 "Looking up text at an index succeeds exactly when that entry is a UTF-8 constant and returns its text; looking up a class name succeeds exactly when the entry is a class constant whose name index denotes a UTF-8 constant and returns that text. The optional variant differs only in returning nothing for a class constant with name index 0; every other entry kind and every invalid index gives the invalid-entry error.",
 ["inputs", "histories"], "all pools and all indices 0..65535",
 "Typed lookups are not tested.",
 [CP], [("typed lookups", CP+" Pool::get_utf8, get_class_name, get_class_name_opt")], ["jbcrs::basic::Pool"])
prop("C26", "Type descriptors: exactly the well-formed ones parse, to the right type",
 "A string parses as a type descriptor exactly when it is up to 255 '[' followed by one of Z B S I J F D C, or by L, a non-empty name without ';', and ';', with nothing after it; the result has that number of dimensions and that base type or name. Every other string is rejected with the invalid-descriptor error that carries the string itself and a position within it; no string panics.",
 ["inputs"], "all strings over all characters, of all lengths and dimension counts",
 "About a dozen fixed strings are tested.",
 [TY], [("state machine over chars", TY+" impl FromStr for TypeDescriptor")], ["jbcrs::TypeDescriptor"])
prop("C27", "Method descriptors: exactly the well-formed ones parse, to the right types",
 "A string parses as a method descriptor exactly when it is '(', at most 255 type descriptors, ')', and a type descriptor or V, with nothing after it; the result has those parameter types in order (each with its own dimensions) and that return type, or none for V. Every other string is rejected with the invalid-descriptor error that carries the string itself and a position within it; no string panics.",
 ["inputs"], "all strings over all characters, of all lengths, parameter and dimension counts",
 "About twenty-five fixed strings are tested.",
 [TY], [("two-state parser", TY+" impl FromStr for MethodDescriptor")], ["jbcrs::MethodDescriptor"])
prop("C28", "Descriptors survive a round trip through text in both directions",
 "Printing a type or method descriptor that was parsed gives back the very string it was parsed from, and parsing the printed form of any descriptor built from valid parts (names non-empty and without ';', at most 255 dimensions and parameters) gives back an equal descriptor. Different descriptors print differently.",
 ["inputs"], "all descriptors",
 "Round trips are shown by two documentation examples.",
 [TY], [("Display and FromStr", TY)], ["jbcrs::TypeDescriptor", "jbcrs::MethodDescriptor"])
prop("C29", "Parsing is a pure function of its input",
 "Parsing the same bytes always gives the same result, whatever was parsed before in the same process (successfully or not), whatever other results are still alive, wherever in memory the bytes lie, and whatever other threads parse at the same time; parsing never changes results returned earlier. Growing one pool never affects another.",
 ["histories"], "all sequences of parse calls and pool operations over several inputs, and all interleavings of two parses in two threads",
 NO_PARSE + "state leaking from one call into another needs sequences of calls.",
 [PM, DEC, CODE, CP], [("all state is local to the call", PM+" parse")], ["jbcrs::basic::parse"])
prop("C30", "Parsing, lookups and descriptors take work in proportion to their size",
 "The work of parsing grows in proportion to the input: for an input of n bytes the memory requested in total (not only at one moment) stays below 32 MiB plus 1 KiB times n and the processor time below half a second plus two microseconds per byte, and when whatever the input consists of (constants, texts, names, members, attributes, table entries, instructions, switch entries, annotations, or two of them together) doubles, the work about doubles and does not quadruple. The same holds for filling a constant pool with items of any kind and looking all of them up by index and by value, however similar the items are, and for parsing and printing descriptors.",
 ["inputs", "histories"], "all inputs, in particular those in which two things are large at once; all pools of all sizes; all descriptors",
 "No existing test measures work, and none uses an input, pool or descriptor of more than a few elements (a descriptor of 256 characters is the largest).",
 [PM, DEC, CODE, CP, TY], [("names are compared in place, items are found by hash", PM+" parse_attributes; "+CP+" impl Hash for Item, Pool::push"), ("one pass over the input", DEC+" Decoder")], ["jbcrs::basic::parse", "jbcrs::basic::Pool", "jbcrs::TypeDescriptor", "jbcrs::MethodDescriptor"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
