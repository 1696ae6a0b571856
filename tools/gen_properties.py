import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=obs or [],hook_needed=None)))
R="include/Srl/Resolve.hpp"; N="src/lib/Node.cpp"; E="src/lib/Environment.cpp"
p("C01","Typed objects survive store and restore in every format",
"Storing a C++ object (numbers, bools, strings of every character width, character arrays, STL containers, maps, pairs, tuples, fixed arrays, smart and raw non-null pointers, binary wrappers, hash tables, and user types with resolve or store/restore methods, nested arbitrarily) as Srl, MessagePack or JSON and restoring the same type from the result yields an equal object. This holds for every way of getting the data out and back in: buffers or streams, compact or indented JSON, restoring directly or loading a document first and pasting from it. Floating point values are finite in JSON, and element order of unordered containers is not significant.",
["inputs","programs"],"all supported types, all values of them, all formats and all restore paths",
"The tests store a handful of fixed objects with typical values; sizes, nesting, boundary values and the cross product of type x format x path are not sampled.",
[R,"include/Srl/Node.hpp","include/Srl/Context.hpp","include/Srl/Tree.hpp",N,E],
[("type resolution per C++ type",R+": Switch<T>"),("direct write while storing","include/Srl/Node.hpp: open_scope, Node::insert_value"),("direct restore and paste","include/Srl/Node.hpp: paste_field")],
None,["Tree::store","Tree::restore","Node::paste"])
p("C02","Documents survive writing and reading in every format",
"A document written in any format and loaded again has the same scopes, names, value order, node order, kinds of values (null, bool, integer, floating point, text, binary) and values at every level; this also holds along any chain of format conversions. In JSON, numbers are compared by value as read back into the original type (an integral floating point number may come back as an integer that denotes it), binary data comes back as its base64 text, and floating point values must be finite.",
["inputs","programs"],"all documents (shape, names, values, sizes) and all chains of formats",
"Tests convert a few generated documents with one shape and regular names; lengths at encoding boundaries, many distinct names, and odd names or values are not reached.",
["include/Srl/Tree.hpp",N,E,"src/lib/PSrl.cpp","src/lib/PMsgPack.cpp","src/lib/PJson.cpp"],
[("document writer",N+": Node::to_source"),("document reader",N+": Node::read_source"),("value conversion for text formats",E+": write_conv / conv_type")],None,["Tree::to_source","Tree::load_source"])
p("C03","The Srl binary format is written and read as specified",
"The bytes written for any document are a well-formed Srl binary stream that denotes exactly that document: flag bytes, variable length integers, little endian floating point numbers, length-prefixed text and binary data, new field names spelled out and repeated ones referenced by position. Any well-formed stream is accepted and read as the document it denotes, whichever of the legal ways names and numbers are encoded in.",
["inputs"],"all documents and all well-formed encodings of them",
"Tests only read back what the same build wrote, so a symmetric change of writer and reader is invisible, as are boundaries of the integer encoding and of the name table.",
["src/lib/PSrl.cpp","include/Srl/PSrl.h"],[("writer","src/lib/PSrl.cpp: write, write_head, encode_integer"),("reader","src/lib/PSrl.cpp: read, read_head, decode_integer")],
[("string table","names in order of first occurrence","src/lib/PSrl.cpp: hashed_strings, indexed_strings")],["Tree::to_source<PSrl>","Tree::load_source<PSrl>"])
p("C04","MessagePack output and input conform to the MessagePack format",
"The bytes written for any document are valid MessagePack denoting that document, so any other MessagePack implementation reads the same scopes, names and values from them. Any valid MessagePack encoding of a map or array with string keys and nil, boolean, integer, float, string, binary, array and map values, in any of the legal widths, is read as the document it denotes.",
["inputs"],"all documents and all valid encodings (every width of every type) of them",
"Tests read back what the same build wrote, so non-conforming lengths or byte orders cancel out, and most legal encodings are never produced by the writer.",
["src/lib/PMsgPack.cpp"],[("writer","src/lib/PMsgPack.cpp: write, write_str, write_bin, write_scalar, write_scope"),("reader","src/lib/PMsgPack.cpp: read, read_scalar, get_str_size, get_scope_info")],
[("scope stack","type and open element count per scope","src/lib/PMsgPack.cpp: scope_stack")],["Tree::to_source<PMsgPack>","Tree::load_source<PMsgPack>"])
p("C05","JSON output is valid JSON and any valid JSON document is read",
"For every document with finite numbers, both the compact and the indented output are valid JSON texts that denote that document. Every valid JSON text (object or array at the top, without comments) is read as the document it denotes, independent of white space, of the choice of escape sequences including \\u escapes and surrogate pairs, and of how numbers are spelled.",
["inputs"],"all documents; all valid JSON spellings of them",
"Tests parse a few fixed texts and the library's own output; arbitrary escapes, unusual white space, control characters and special characters in names are not covered.",
["src/lib/PJson.cpp","include/Srl/In.hpp","include/Srl/Out.hpp","src/lib/ToolsStrConv.cpp"],
[("escaping","src/lib/PJson.cpp: write_escape, read_unescape"),("tokenizer","src/lib/PJson.cpp: read, process_char, process_quote, process_bracket")],
[("scope stack","open brackets","src/lib/PJson.cpp: scope_stack")],["Tree::to_source<PJson>","Tree::load_source<PJson>"])
p("C06","Restoring directly equals loading a document and pasting from it",
"For every well-formed source (within the nesting limit) and every target type, restoring directly from the source succeeds exactly when loading the whole source as a document and pasting from its root succeeds, and yields the same object. In particular fields are found whatever their order in the source, unknown fields of any shape are skipped, repeated names resolve to the first one of the requested kind, optional fields keep their value if missing, and missing mandatory fields raise an exception.",
["inputs","programs"],"all pairs of source document and target type, each scope of the target either naming all its fields (each name once) or none",
"Direct restoring consumes the source lazily and remembers skipped items; which path runs depends on field order and nesting, and the tests only use sources in the order of the type plus a few permutations.",
[N,"include/Srl/Node.hpp",R,"include/Srl/Context.hpp"],
[("lazy consumption",N+": consume_node, consume_value, consume_item, consume_scope"),("paste from document","include/Srl/Node.hpp: paste_field"),("optional fields","include/Srl/Context.hpp: Context::paste")],
[("parsed","whether the scope has been read to its end","include/Srl/Node.h: parsed"),("nodes, values","items read but not yet consumed","include/Srl/Node.h")],["Tree::restore","Tree::load_source + Node::paste"])
p("C07","Reading from a stream equals reading from a buffer",
"Whatever the format and however long the document, its strings, numbers and names are, reading from an input stream gives the same document, object or exception as reading the same bytes from a memory buffer, wherever the internal refill boundaries fall.",
["inputs"],"all sources, all alignments of tokens to refill boundaries",
"Refills happen every 1024 bytes, so a defect needs a certain token at a certain offset; tests stream a few documents of one size.",
["include/Srl/In.h","include/Srl/In.hpp","src/lib/In.cpp"],
[("window refill","src/lib/In.cpp: try_fetch_data"),("anchored block reads","include/Srl/In.hpp: read_block, read_block_until, read_substitue")],
[("window","buffered part of the stream with position, anchor and end","include/Srl/In.h: start, pos, end, anchor, buffer")],["Tree::load_source(istream)","Tree::restore(istream)"])
p("C08","Writing to a stream equals writing to a buffer",
"Whatever the format and size of the object or document, writing to an output stream appends exactly the bytes that writing to a buffer yields, at whatever position the stream was when writing started, and leaves the stream positioned after them with earlier contents untouched. (MessagePack, which fills in lengths later, needs a stream that can be positioned and overwritten.)",
["inputs","histories"],"all documents and objects, all initial stream positions, all flush boundaries",
"Scope sizes are patched into already flushed segments, so a defect needs scopes opened and closed in different 1024 byte segments or a stream not at its start; tests write small documents to fresh streams.",
["include/Srl/Out.h","include/Srl/Out.hpp","src/lib/Out.cpp"],
[("segment flush","src/lib/Out.cpp: write_to_stream, inc_cap"),("late patching","include/Srl/Out.hpp: reserve, write(Ticket)")],
[("segment","buffered bytes not yet flushed","include/Srl/Out.h: state")],["Tree::to_source(ostream)","Tree::store(ostream)","Tree::pack(ostream)"])
p("C09","The node API behaves as an ordered document",
"Under every sequence of operations a node behaves as one ordered list of named values plus one ordered list of named nodes: insertion appends, access by name yields the first match (exact name equality, whatever the name's length or encoding), access by index the item at that position, removal by name, index or pointer removes exactly that one item, searches and iteration visit exactly the items asked for in order, and no operation changes any other item. Access to missing names or indices raises an exception, or yields nothing for the try/has/remove variants.",
["histories","inputs"],"all finite sequences of insertions, removals, lookups, searches, loads, clears and moves on one or several documents",
"The tests run one fixed script; aliasing between names, heap reuse after removals, duplicates and emptied lists need histories they do not contain.",
[N,"include/Srl/Node.h","include/Srl/Node.hpp",E,"include/Srl/Union.hpp","src/lib/Tree.cpp"],
[("lookup",N+": find_link, get_link_at_index"),("storage",E+": store_node, store_value, store_string"),("document lifecycle","src/lib/Tree.cpp: clear, operator=")],
[("values, nodes","the two ordered lists","include/Srl/Node.h"),("string table","interned names",E+": store_string")],["Node","Tree","Union"])
p("C10","Copied nodes are deep and independent",
"Inserting a node into another document or into another place of the same document, copying it, moving the document, or loading an object into a document yields content equal to the original at that time; later changes to, clearing of, or destruction of the original (or of the memory the data came from) leave the copy unchanged, and vice versa.",
["histories"],"all sequences of copies, insertions of copies, modifications and clears across documents",
"Aliasing only shows when one side is modified, cleared and reused after the copy; the tests copy once and compare.",
[E,"include/Srl/Environment.h",N,"src/lib/Tree.cpp"],
[("deep copy between documents",E+": store_node"),("copy of external memory",E+": store_value, store_string")],None,["Node::insert(name, Node)","Node copy constructor","Tree move"])
p("C11","Numeric conversions are exact or rejected",
"Reading a number into a numeric type either yields the mathematically same value or raises an exception: integers are never wrapped or sign-flipped, and floating point values outside the range of the target or not a number are never turned into an integer. The only permitted losses are truncation of the fraction towards zero when an in-range floating point value is read as an integer and rounding to the nearest representable value when the target is a floating point type; this holds for every source representation, including numbers given as text.",
["inputs"],"all values of all scalar types, all target types, all formats",
"A conversion matrix of 12 source types by 11 target types at all boundary values; the tests check in-range round trips of some of them.",
["include/Srl/TpTools.h",R,"include/Srl/Value.hpp"],
[("overflow checks","include/Srl/TpTools.h: overflows, fp_overflows, try_apply"),("value packing","include/Srl/Value.hpp: Value(const T&)")],None,["Value::unwrap","Node::unwrap_field","Tree::restore"])
p("C12","Numbers survive their text form",
"The text written for a finite number denotes exactly that integer, or a decimal that reads back as the identical floating point value. Reading a JSON number or a numeric string yields the exact integer if it is a plain integer that fits 64 bits, the correctly rounded double otherwise, and text that is not a number in decimal notation is not turned into one (notations of the C library for infinity, not-a-number and hexadecimal numbers aside; the words true, false and null stand for the numbers 1, 0 and 0).",
["inputs"],"all 64 bit integers, all finite doubles and floats, all numeric texts up to the length of the source",
"Number formatting and parsing have many numeric boundary cases (powers of two and ten, subnormals, halfway cases, overflow of the integer path); the tests use a few values.",
["src/lib/ToolsStrConv.cpp","src/lib/fpconv/fpconv.c"],
[("number to text","src/lib/ToolsStrConv.cpp: conv_type"),("text to number","src/lib/ToolsStrConv.cpp: str_to_type, str_to_int, str_to_double"),("shortest digits","src/lib/fpconv/fpconv.c: fpconv_dtoa")],None,["Tools::type_to_str","Tools::str_to_type","Tree::to_source<PJson>"])
p("C13","Shared references keep their identity",
"When an object graph is stored, every object reachable through several shared or weak references is written once, and after restoring, two references point to the same object exactly when they did before; distinct objects stay distinct and each has its own restored value. This holds in every format and for repeated store and restore operations on the same document instance.",
["inputs","histories"],"all aliasing patterns of non-null shared references, cyclic ones included (every object is held by a strong reference; its first occurrence is restored first), all formats, all sequences of operations",
"The tests alias one object from three fields; arbitrary partitions, nesting of shared objects and repeated operations are not tried.",
[R,N],[("key allocation when storing",N+": insert_shared"),("lookup when restoring",N+": find_shared"),("shared pointer resolution",R+": Switch<shared_ptr>, Switch<weak_ptr>")],
[("shared tables","object to key and key to object","include/Srl/Environment.h: shared_table_store, shared_table_restore")],["Tree::store","Tree::restore"])
p("C14","Polymorphic objects are restored with their dynamic type",
"An object stored through a base class pointer is restored as an object of the same registered class with the same state, wherever the type identifier appears among the fields of its scope and however long it is. An unknown or missing type identifier raises an exception and leaves the target pointer valid; registering an identifier twice is rejected.",
["inputs"],"all sequences of registered classes behind raw, unique and shared base pointers, all field orders, all formats and restore paths",
"The tests restore two derived classes in storing order; lookups with identifiers read from streams, in other positions, or unknown are not covered.",
[R,"include/Srl/Registration.h","src/lib/Registration.cpp"],[("type registry","include/Srl/Registration.h: Registrations"),("polymorphic resolution",R+": Switch<T> for is_polymorphic")],None,["Tree::store","Tree::restore","register_type"])
p("C15","Malformed input is answered with an exception, never with a crash",
"For every byte sequence, in every format, from buffer or stream, loading or restoring either succeeds or raises the library's exception; it never crashes, hangs, reads outside of the given memory or exhausts memory because of bogus lengths. Every proper prefix of an encoded document (JSON documents without surrounding white space) is rejected when it is loaded.",
["inputs","crash_points"],"all byte sequences, in particular all truncations and local corruptions of valid sources",
"The tests feed fixed random garbage; out of bounds reads need specific truncation points right behind a token, and silent acceptance of a cut-off document is not checked.",
["include/Srl/In.hpp","src/lib/In.cpp","src/lib/PSrl.cpp","src/lib/PMsgPack.cpp","src/lib/PJson.cpp",N],
[("bounds checks","include/Srl/In.hpp: peek, move, try_peek, at_end"),("length checks","src/lib/In.cpp: try_fetch_data")],None,["Tree::load_source","Tree::restore","Tree::unpack"])
p("C16","Operations do not depend on what happened before on the same instance",
"The result of storing, restoring, loading, packing or unpacking depends only on the arguments, and writing a document only on its content: neither earlier operations on the same document or parser object, in whatever format or mode, nor earlier ones that failed midway (malformed sources, type mismatches, exceptions thrown by user code) influence it. Storing an object never changes the document held.",
["histories","fault_sequences"],"all finite sequences of successful and failing operations on shared document and parser instances",
"Parser, buffer, name table and mode flags are kept between operations; tests use fresh instances or repeat one successful operation.",
["include/Srl/Tree.hpp","src/lib/Tree.cpp",E,"src/lib/PSrl.cpp","src/lib/PMsgPack.cpp","src/lib/PJson.cpp","src/lib/In.cpp","src/lib/Out.cpp"],
[("parser reset","src/lib/Environment.cpp: set_input, set_output"),("mode guard","src/lib/Tree.cpp: to_source"),("document reset",E+": clear")],
[("parsing","whether insertions go to the writer","include/Srl/Environment.h: parsing")],["Tree","Parser"])
p("C17","The hash table is a finite map",
"Under every sequence of insert, upsert, get, remove, remove-if, extract, iteration, clear and move operations the hash table behaves as a finite map: lookups find exactly the keys present with their latest value, the number of entries is exact, iteration visits every entry once, insert keeps and upsert replaces existing values, and stored values stay at their address until removed.",
["histories"],"all finite operation sequences, all key sets including colliding hashes, all initial capacities and load factors",
"Chaining, redistribution, slot reuse after removal and moves interact only in longer histories with colliding keys; the tests insert and remove disjoint ranges.",
["include/Srl/Hash.h","include/Srl/Hash.hpp","src/lib/Hash.cpp"],[("insertion and redistribution","include/Srl/Hash.hpp: insert_hash, redistribute"),("removal","include/Srl/Hash.hpp: get_rm, remove, remove_if, extract"),("move","include/Srl/Hash.hpp: operator=")],
[("table","bucket heads","include/Srl/Hash.h: table"),("mem_cache","entries free for reuse","include/Srl/Hash.h: mem_cache")],["HTable"])
p("C18","Heap blocks are disjoint, aligned and keep their content",
"Every block handed out by the heap is aligned for its type, lies in valid memory of the requested size, and does not overlap any other live block; its content is never changed by the heap until it is returned, the heap is cleared or destroyed. This holds across returning, reusing, clearing and moving, and after allocations that failed.",
["histories"],"all finite sequences of allocations (any size and alignment), returns, clears and moves",
"Reuse of returned blocks and segment remainders depends on the exact history of sizes; the tests allocate increasing sizes without returning blocks.",
["src/lib/Heap.cpp","include/Srl/Heap.h","include/Srl/Heap.hpp"],[("allocation","include/Srl/Heap.hpp: get_mem; src/lib/Heap.cpp: alloc, find_free_seg"),("recycling","src/lib/Heap.cpp: put_mem, clear")],
[("segments","used and free segments","include/Srl/Heap.h: chain")],["Heap"])
p("C19","Text keeps its code points across encodings",
"Text given as UTF-8, UTF-16 or UTF-32 is restored with the same code points in any of these encodings, whatever its length; invalid or incomplete sequences raise an exception when a conversion is needed. Field names are equal exactly when their code points are, so a field stored under a name in one encoding is found under it in any other.",
["inputs"],"all code point sequences, all pairs of source and target encoding, all lengths",
"Conversion buffers grow depending on how much text expands; the tests convert short texts only.",
["src/lib/ToolsStrConv.cpp","include/Srl/String.hpp",R,E],[("conversion","src/lib/ToolsStrConv.cpp: conv_charset"),("name interning",E+": store_string, hash_string"),("string resolution",R+": Switch<basic_string>, Switch<char[]>")],None,["Node::insert","Node::unwrap_field","Tools::conv_charset"])
p("C20","Binary data survives; base64 and hex follow their standards",
"Binary data of every length and content is restored byte for byte in all formats, in JSON as standard padded base64 text. Base64 and hex encoders produce the standard encoding, decoders invert it, and text that is not valid base64 or hex (foreign characters, misplaced padding, wrong length) is rejected.",
["inputs"],"all byte sequences, all texts",
"Errors depend on the length modulo three, on byte values with the high bit, and on where padding occurs; the tests round trip a few blocks.",
["src/lib/ToolsBtsConv.cpp",R,"include/Srl/BitWrap.h",E],[("base64","src/lib/ToolsBtsConv.cpp: bytes_to_base64, base64_to_bytes"),("hex","src/lib/ToolsBtsConv.cpp: bytes_to_hex, hex_to_bytes"),("binary resolution",R+": Switch<BitWrap>, Switch<VecWrap>, Switch<Bytes>")],None,["Tree::store","Tree::restore","Tools"])
p("C21","Data that does not fit the target type is rejected",
"Restoring or pasting data into a target it does not fit raises an exception and never silently yields a partial, truncated or out of bounds result: a scope where a value is expected or the reverse, a non-numeric string for a number (the words true, false and null are numeric), text too long for a character array, a fixed array of another length, an array where named fields are needed, or a binary block that is not a multiple of the element size.",
["inputs"],"all combinations of target type and non-fitting data, in all formats and restore paths",
"The tests check round trips of fitting data; rejection is checked for a few cases only and not on the direct restore path.",
[R,"include/Srl/Node.hpp","include/Srl/BitWrap.h"],[("type and size checks",R+": check_type*, check_size*"),("array length",R+": Switch<T> for arrays"),("text length",R+": Switch<T> for char arrays, copy_string")],None,["Tree::restore","Node::paste","Union::unwrap"])
p("C22","Packed items can be unpacked in any order",
"Items packed under names can be unpacked from the result, in every format and through buffers or streams, by any selection of those names in any order, and yield equal objects; the result denotes the same document as inserting the items into a node. A name that was not packed raises an exception.",
["inputs","programs"],"all lists of named items and all selections and orders of them when unpacking",
"The tests pack and unpack one list in one order.",
["include/Srl/Tree.hpp","include/Srl/Node.hpp",N],[("pack / unpack","include/Srl/Tree.hpp: pack, unpack"),("field paste","include/Srl/Node.hpp: paste(name, item, ...)")],None,["Tree::pack","Tree::unpack"])
p("C23","Excessive nesting is rejected at a fixed depth",
"A document whose root contains at most 128 levels of nested scopes is loaded; one with more levels is rejected with an exception, in every format, from buffers and streams, and whatever mixture of objects and arrays and siblings it consists of. The limit counts nesting, not the number of scopes.",
["inputs"],"all documents around the nesting limit and far beyond it",
"The tests feed extremely deep documents only; the exact limit and wide documents are not checked.",
[N],[("depth check",N+": Node::read_source")],None,["Tree::load_source"])
p("C24","JSON documents and objects convert between all entry points alike",
"An object inserted into a document, loaded as a document, stored directly, or built by hand with the node API yields the same document in every format: same scopes, names, order and values. Equally, a value read from a document by field access, by union access or by pasting into an object is the same.",
["inputs","programs"],"all supported types and values, all entry points",
"Each entry point has its own code path (immediate writing, document building, union conversion); the tests exercise them with different data and never compare them.",
["include/Srl/Tree.hpp","include/Srl/Node.hpp",R,"include/Srl/Union.hpp",E],[("immediate writing",E+": write, store_node"),("document building","include/Srl/Tree.hpp: load_object"),("union access","include/Srl/Union.hpp: unwrap, unwrap_if, copy_to")],None,["Tree::store","Tree::load_object","Node::insert","Union"])
PP=P[-1]
p("C25","Documents in different threads do not influence each other",
"Threads that work on documents, parsers and objects of their own at the same time, after types have been registered, get the results they would get alone, in every format and under every schedule, including operations that fail; no memory is written by one of them and accessed by another without synchronisation.",
["schedules","histories"],"all schedules of threads working on distinct documents",
"The tests use one thread. Scratch buffers, name tables, shared constants and the registry of types would have to be shared by mistake and two threads meet in them; a test that happens to pass proves nothing about other schedules.",
[E,"include/Srl/Environment.h","src/lib/ToolsStrConv.cpp","src/lib/Registration.cpp","src/lib/In.cpp","src/lib/Out.cpp"],
[("conversion buffers","include/Srl/Environment.h: str_conv_buffer, type_conv_buffer"),("registry","src/lib/Registration.cpp: registry"),("shared constants","src/lib/Aux.cpp: str_empty")],None,["Tree","register_type"])
P[-2],P[-1]=P[-2],P[-1]
PP["title"]="All ways to store or access the same data agree"
for x in P: assert len(x["title"])<=80,x["id"]; 
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
