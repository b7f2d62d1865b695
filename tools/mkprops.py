"""Generates properties.jsonl (kept here because JSON lines are unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs or ["parse_class", "parse_class_with_options"], hook_needed=None)))
L, A, B, C, D, E, N = ['src/%s.rs' % x for x in ('lib', 'attributes', 'bytecode', 'constant_pool', 'descriptors', 'error', 'names')]

p('C01', 'No input makes the parser or its result accessors panic',
  "Parsing any byte string, with bytecode parsing on or off, returns either a class or an error: it never panics (no arithmetic overflow, out-of-range index or slice, failed unwrap, conflicting borrow of shared pool data, or explicit panic), also in builds with overflow checks. The same holds for iterating the constant pool of a returned class and looking up an instruction by offset in a returned code attribute.",
  ['inputs', 'configurations'], "all byte strings of all lengths, both option settings, both build features",
  "Tests feed 20-odd well-formed class files and a handful of hand-made fragments; a panic needs one particular malformed count, offset, tag or string among 2^(8n) inputs.",
  [L, A, B, C, D, N],
  [('length test before every fixed-width read', 'read_u1/u2/u4/u8 in src/lib.rs'), ('length test before slicing attribute contents and string bytes', 'ensure_length, read_nested_attributes, read_code_data; read_utf8 in src/constant_pool.rs'), ('validation of pool entries before they are dereferenced', 'read_constant_pool, ConstantPoolEntry::{resolve,validate}'), ('checked jump arithmetic', 'read_opcodes, validate_jumps in src/bytecode.rs')],
  ["parse_class", "parse_class_with_options", "ConstantPoolIter::next", "ByteCode::get_opcode_index"])

p('C02', 'Parsing always terminates, with input-independent recursion depth',
  "Parsing any byte string terminates: every loop consumes input, exhausts a count read from the input, or advances through a finite list. The depth of recursion is bounded by a constant that does not depend on the input, so no input can exhaust the stack.",
  ['inputs'], "all byte strings, in particular nested annotations, nested attributes and cyclic constant-pool references",
  "Tests contain no deeply nested or cyclic input; termination and depth are statements about all nestings.",
  [A, B, C, D, L],
  [('nesting limit for annotations', 'read_annotation / read_annotation_element_value in src/attributes.rs'), ('nesting limit for attributes', 'read_nested_attributes in src/attributes.rs'), ('non-recursive checks of constant-pool references', 'ConstantPoolEntry::validate* in src/constant_pool.rs')])

p('C03', 'Storage reserved ahead of reading is bounded',
  "Whenever the parser reserves space for elements it has not read yet, the number of elements is bounded either by a 16-bit count or by a constant times the bytes remaining in the structure being read. No unchecked 32-bit quantity from the input is ever used as a capacity.",
  ['inputs'], "all byte strings, every place that reserves capacity",
  "The effect is only visible with hostile counts, which no test file has, and only as memory use.",
  [A, B, C, L],
  [('16-bit counts as capacities', 'read_* in src/attributes.rs, src/lib.rs, src/constant_pool.rs'), ('capacity of switch tables bounded by remaining code', 'read_opcodes in src/bytecode.rs')])

p('C04', 'A successful parse accounts for every byte of the input',
  "If parsing succeeds, nothing is left over: the class structure ends exactly at the end of the input, the contents of every attribute of a supported kind occupy exactly the attribute's declared length, and decoded instructions occupy exactly the declared code length. Any excess or shortage of bytes makes the parse fail.",
  ['inputs'], "all accepted inputs, every attribute kind at every nesting level",
  "Test class files are all well-formed, so a missing or weakened length check changes nothing they observe.",
  [L, A, B],
  [('trailing-bytes check', 'parse_class_with_options in src/lib.rs'), ('declared-length check after each attribute', 'read_nested_attributes in src/attributes.rs'), ('exact lengths of fixed-size attributes', 'ensure_length in src/attributes.rs'), ('instructions read until the end of the code array', 'read_opcodes in src/bytecode.rs')])

p('C05', 'Multi-byte quantities are read big-endian from consecutive bytes',
  "Every integer taken from the input is the big-endian combination of exactly as many consecutive bytes as its format width, starting at the current position, which then advances by exactly that width. If fewer bytes remain, the read fails and no value is produced.",
  ['inputs'], "all byte strings and all positions, widths 1, 2, 4 and 8",
  "Tests see few values with high bytes set and never read at the very end of a short buffer.",
  [L], [('fixed-width readers', 'read_u1, read_u2, read_u4, read_u8 in src/lib.rs')])

p('C06', 'Constant-pool entries are decoded as the class-file format defines',
  "For every accepted class, the constant pool has one entry per index from 1 to the declared count minus one, each decoded from its tag according to the class-file format: field widths and order, numeric interpretation, modified-UTF-8 strings, method-handle kinds, and a long or double taking two indices of which the second is unusable. Unknown tags, tags not allowed for the class's major version, invalid method-handle kinds, and a long or double without room for its second index are rejected.",
  ['inputs'], "all byte strings, every tag, every major version",
  "Tests contain a sample of entry kinds and versions; tag gating by version and boundary positions of wide entries are not sampled.",
  [C], [('pool reader', 'read_constant_pool and the per-tag readers in src/constant_pool.rs')], ["parse_class", "ConstantPoolIter::next"])

p('C07', 'Constant-pool references are checked and resolve to the entry they name',
  "A class is accepted only if every constant-pool reference in it, from inside the pool or from any structure, is in range, not a reference of an entry to itself, and names an entry of a kind the class-file format permits in that place (for references between pool entries, as of the class file's major version); index zero is accepted only where the format makes the item optional. In the result, each such item holds the contents of exactly the entry that was named.",
  ['inputs'], "all byte strings; every reference-bearing pool entry kind and every reference in attributes, fields, methods, code",
  "The number of (place, entry kind) pairs is far beyond the tests, which exercise nearly only the permitted ones.",
  [C, L, A, B],
  [('resolution', 'ConstantPoolRef::resolve, ConstantPoolEntry::resolve'), ('kind checks inside the pool', 'ConstantPoolEntry::validate'), ('kind checks outside the pool', 'read_cp_* in src/constant_pool.rs')],
  ["parse_class", "ConstantPoolIter::next"])

p('C08', 'Names and descriptors are accepted exactly when well-formed',
  "Names (class, field, method, local variable, parameter, record component, package, module) and descriptors (field, method, array) are accepted only if they belong to the language the class-file format defines for that place, for strings of every length and content, and every member of that language is accepted. Special method names are allowed only where the format allows them and only with the descriptors it allows.",
  ['inputs'], "all strings, in every place where a name or descriptor occurs",
  "Each place accepts an infinite language; unit tests sample some thirty strings.",
  [N, D, C, L, A],
  [('name predicates', 'is_unqualified_name, is_unqualified_method_name, is_binary_name, is_module_name in src/names.rs'), ('descriptor grammar', 'parse_field_descriptor, parse_method_descriptor, ClassName::try_from in src/descriptors.rs'), ('use at each place', 'ConstantPoolEntry::validate_* in src/constant_pool.rs, read_fields/read_methods in src/lib.rs, src/attributes.rs')])

p('C09', 'Parsed descriptors denote exactly what their text says',
  "For every accepted descriptor, the parsed form has the number of array dimensions, the base type or class name, the parameters in order, and the return type that the text denotes, and formatting the parsed form as text gives the original descriptor back.",
  ['inputs'], "all descriptor strings",
  "Unit tests check about a dozen descriptors out of an infinite language.",
  [D], [('descriptor parser', 'parse_field_descriptor, parse_method_descriptor, parse_class_descriptor in src/descriptors.rs'), ('formatting', 'Display impls in src/descriptors.rs')],
  ["FieldInfo::descriptor", "MethodInfo::descriptor", "Display of descriptors"])

p('C10', 'Every instruction is decoded as the JVM instruction set defines',
  "With bytecode parsing on, each instruction of an accepted code array is decoded to the operation its opcode byte denotes, with every operand taken from the right bytes with the right width and signedness, including wide forms, switch padding and tables, and the short forms with implicit operands; the offset recorded is that of its opcode byte. Opcode bytes that denote no instruction, wide prefixes on instructions that have no wide form, and non-zero bytes where the format requires zero are rejected.",
  ['inputs'], "all code arrays; every opcode value and operand value",
  "Test classes exercise a fraction of the 200 opcodes and few operand values; a swapped pair of neighbouring opcodes or a lost sign is easily unobserved.",
  [B], [('decoder', 'read_opcodes in src/bytecode.rs'), ('opcode type', 'enum Opcode in src/bytecode.rs')], ["CodeData::bytecode"])

p('C11', 'Branch targets of accepted code are instruction starts',
  "With bytecode parsing on, code is accepted only if every branch and switch target lies on the first byte of an instruction of the same code array, for all signed 16- and 32-bit offsets; every decoded branch or switch instruction is subject to the check.",
  ['inputs'], "all code arrays, all jump offsets including negative, overflowing and past-the-end ones",
  "Valid class files never contain a bad target, so tests cannot notice a branch kind that is left unchecked.",
  [B], [('target validation', 'validate_jumps in src/bytecode.rs')], ["CodeData::bytecode"])

p('C12', 'Instructions are in offset order and can be found by offset',
  "The decoded instruction list is strictly increasing in byte offset and starts at offset zero, and the lookup by offset returns the index of an instruction exactly when some instruction starts at that offset, and nothing otherwise.",
  ['inputs'], "all decoded code arrays and all offsets",
  "Tests look up a handful of offsets in two methods.",
  [B], [('ordered construction', 'read_opcodes in src/bytecode.rs'), ('binary search', 'ByteCode::get_opcode_index in src/bytecode.rs')],
  ["ByteCode::opcodes", "ByteCode::get_opcode_index"])

p('C13', 'Attributes are decoded as the class-file format defines',
  "Every attribute whose name the class-file format (Java 21) predefines is decoded to its own kind, with every item taken from the right bytes in the right order and width, tables complete and in file order, and every tag, kind or frame type mapped to its meaning. Undefined tags, kinds, frame types and target types are rejected, and attributes with any other name are returned with their name and exactly their raw contents.",
  ['inputs'], "all attribute contents: 30 predefined attributes, all stack-map frame types, verification types, element-value tags, type-annotation targets and path kinds",
  "Tests check selected attributes of a few javac-produced files; most frame types, targets and boundary tags do not occur.",
  [A], [('attribute dispatch', 'read_nested_attributes in src/attributes.rs'), ('table readers', 'read_* in src/attributes.rs')], ["AttributeInfo::data"])

p('C14', 'The class structure is read as the format defines, with its consistency checks',
  "The returned class has exactly the magic-checked version numbers, access flags, this/super class, interfaces, fields and methods of the input, complete and in order, each member with its own flags, name, descriptor and attributes. A class is rejected on a wrong magic number, duplicate fields or methods (same name and descriptor), or when its module flag appears in a class older than version 53, together with other class flags, or with a superclass, interfaces, fields or methods.",
  ['inputs'], "all byte strings",
  "Tests inspect the structure of a few files and no file that violates the module or duplicate rules.",
  [L], [('class reader', 'parse_class_with_options, read_interfaces, read_fields, read_methods in src/lib.rs')])

p('C15', 'Bootstrap-method indices in the constant pool are valid',
  "If an accepted class has any dynamic constant or invokedynamic entry in its constant pool, it has exactly one bootstrap-methods attribute and every such entry's bootstrap index is within that attribute's table; otherwise parsing fails. Classes without such entries are not rejected on this ground.",
  ['inputs'], "all byte strings, every number and position of such entries and attributes",
  "The tests contain only consistent files.",
  [L], [('bootstrap check', 'validate_bootstrap_methods in src/lib.rs')])

p('C16', 'A failure detected anywhere makes the whole parse fail',
  "If any step of parsing detects an error, the parse as a whole returns an error: no error result is dropped, replaced by a default, or turned into a partial success. Conversely no success is reported before all checks of that structure have run.",
  ['inputs'], "all inputs that make some parsing step fail, at every nesting level",
  "Error paths are hardly exercised by the tests (a few malformed inputs), so a swallowed error stays unnoticed.",
  [L, A, B, C, D], [('propagation with context', '? / map_err at every call in src/*.rs')])

p('C17', 'Turning bytecode parsing off changes only the bytecode field',
  "With bytecode parsing off, every class accepted with it on is accepted too and yields the same result in every respect except that code attributes carry no bytecode; with it on, every code attribute carries its decoded bytecode. By default it is on.",
  ['inputs', 'configurations'], "all inputs, both settings of the option, at every nesting level",
  "A relation between two runs over all inputs; tests compare a few fields on a single file.",
  [L, A], [('option threading', 'ParseOptions in src/lib.rs; read_code_data in src/attributes.rs')])

p('C18', 'Strings and raw bytes are borrowed from the input',
  "Strings and raw byte contents in the result are slices of the input buffer, not copies, except that a string whose stored bytes are not standard UTF-8 is decoded into an owned string. Parsing a class never allocates a copy of a string that could be borrowed.",
  ['inputs'], "all accepted inputs, every string-valued item of the result",
  "Tests compare contents, and a copy has the same contents.",
  [C, A, D, L], [('borrowing conversions', 'ConstantPoolEntry::{utf8,classinfo,string_literal,name_and_type}, read_utf8 in src/constant_pool.rs; parse_class_descriptor in src/descriptors.rs')])

p('C19', 'Parsing is a pure function of the input bytes and the option',
  "The result of a parse depends only on the input bytes and the option: the library keeps no state between calls and consults no clock, randomness, environment, file, network, thread identity, address or hash order that could influence a result. Two parses of the same bytes give the same result or the same error.",
  ['inputs', 'histories'], "all inputs and all histories of earlier or concurrent calls",
  "Tests cannot enumerate histories or environments.",
  [L, A, B, C, D, N, E], [('no global state or ambient input', 'whole crate')])

p('C20', 'The threadsafe build is shareable, deadlock-free and equivalent',
  "With the threadsafe feature, a parsed class and everything it hands out can be sent to and shared between threads, and no combination of concurrent constant-pool iterations can deadlock or observe a partially resolved entry. Both feature settings accept the same inputs with the same results.",
  ['schedules', 'configurations', 'inputs'], "all interleavings of readers, both feature settings, all inputs",
  "The test suite is single-threaded and built with one feature setting at a time.",
  [L, C], [('Arc/Mutex in place of Rc/RefCell', 'CafeRc in src/lib.rs, CafeCell and peel! in src/constant_pool.rs')], ["ClassFile: Send + Sync", "ConstantPoolIter::next"])

p('C21', 'The crate contains no unsafe code and denies introducing any',
  "No code of the library uses unsafe operations, unsafe functions, raw-pointer dereferences, mutable statics or foreign functions, and the crate forbids the compiler to accept any. Memory safety for hostile input therefore rests on the language alone.",
  ['programs', 'configurations'], "all code of the crate in both feature settings",
  "Tests exercise behaviour; unsafe code can be present and behave on every sampled input.",
  [L], [('crate attribute', '#![forbid(unsafe_code)] in src/lib.rs')], ["crate source"])

p('C22', 'Constant-pool iteration yields every user-visible entry once, in order',
  "Iterating the constant pool of a parsed class yields, in index order and exactly once each, every entry except plain strings and unusable slots, as the item kind of that entry with its referenced names, descriptors, values and bootstrap index resolved.",
  ['inputs'], "all accepted classes, every entry kind and every pool size including empty",
  "The iterator test looks at one class file.",
  [C], [('iterator', 'ConstantPoolIter::next in src/constant_pool.rs')], ["ConstantPoolIter::next"])

p('C23', 'Flag words keep exactly the defined bits at their defined values',
  "Every access-flag item contains exactly those bits of the stored flag word that the format defines for its place, each at the value the format assigns. Undefined bits are dropped for classes, inner classes, fields and methods, and rejected for method parameters and module declarations.",
  ['inputs'], "all 65536 values of every flag word",
  "Tests see a few common combinations.",
  [L, A], [('flag types', 'bitflags! blocks in src/lib.rs and src/attributes.rs')])

p('C24', 'Errors display their message followed by all contexts, innermost first',
  "An error displays as its message, followed by every context added on the way up, innermost first, joined as 'for' then 'of'; adding a context never loses or reorders the message or earlier contexts.",
  ['inputs', 'programs'], "all messages and context lists of any length",
  "One unit test at most shows one chain.",
  [E], [('error type', 'ParseError::with_context and Display in src/error.rs')], ["Display of ParseError"])

p('C25', 'Modified-UTF-8 strings decode faithfully or stay raw',
  "A constant-pool string that decodes as (modified) UTF-8 is returned as that text; one that does not is kept as its exact raw bytes, is returned as raw bytes where a string literal is wanted, and is rejected wherever a name, descriptor or other text is required.",
  ['inputs'], "all byte contents of string entries and all places they are referenced from",
  "Tests contain one or two such strings, referenced from one place.",
  [C], [('decoding', 'read_utf8 in src/constant_pool.rs'), ('raw literals', 'string_literal, StringBytes in src/constant_pool.rs'), ('rejection as text', 'str() and validate_* in src/constant_pool.rs')])

p('C26', 'Parse time is linear in the input size',
  "Parsing takes time at most proportional to the size of the input, up to a logarithmic factor.",
  ['inputs'], "all byte strings", "Only timing over adversarial families of inputs shows it.",
  [L, A, B, C], [('single pass over the input', 'read_* functions')])

p('C27', 'Every class file a JVM accepts is accepted with javap-equivalent contents',
  "Every class file that a Java 21 virtual machine loads is accepted, and the result agrees with what the reference disassembler reports.",
  ['inputs'], "all class files accepted by a conforming JVM", "The reference implementation is not part of the repository and the set is infinite.",
  [L, A, B, C], [('whole parser', 'src/*.rs')])

p('C28', 'Values handed out compare, order, hash and clone by their parts',
  "For every type of the crate that can be compared, ordered, hashed or cloned: two values are equal exactly when they are the same variant with equal parts, equal values hash equally, an order calls two values equal exactly when they are equal, and a clone has the same parts as its original. In particular descriptors that differ in array dimensions, base type, class name, parameters or return type are different values.",
  ['inputs'], "all pairs of values of every public and internal type with a comparison, hash or clone", "Tests compare a few values of a few types; a comparison that ignores a part is wrong only for pairs that differ in that part alone.",
  ['src/descriptors.rs', L, A, B, C, 'src/error.rs'], [('trait implementations', "derive attributes and impl blocks of the crate's types"), ('use for uniqueness', 'unique_ids in read_fields and read_methods in src/lib.rs')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
