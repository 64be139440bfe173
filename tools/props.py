#!/usr/bin/env python3
"""The properties; writes properties.jsonl and MANIFEST.json.  `props.py` regenerates both."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, observe=None, note=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=["mpact/sim/" + f for f in files], mech=mech, na=na, observe=observe or [], note=note))


prop("P01", "Delayed actions happen exactly once, after exactly their latency",
     "Every action scheduled on a delay line takes effect exactly once, after exactly as many cycles as the latency it was given and neither earlier nor later, whatever the initial size of the line, whatever else is in flight and however often the line has to grow. Actions due in the same cycle take effect in the order in which they were scheduled, and the line reports being empty exactly when nothing is pending. The pending count reported on scheduling and advancing is the number of actions still in flight.",
     ["schedules", "histories"], "all initial sizes, all sequences of scheduling and advancing, all latencies",
     "the tests use a few fixed latencies in lines that never have to grow with entries in flight at a non-zero position",
     ["generic/delay_line.h", "generic/delay_line_interface.h", "generic/function_delay_line.h"],
     [("ring of per-cycle lists with a current position, enlarged on demand", "generic/delay_line.h DelayLine::Add/Advance/Resize")])
prop("P02", "Data buffers are reference counted, recycled safely and keep their contents",
     "A data buffer keeps its contents and its identity for as long as anyone holds a reference, is never handed out again while referenced or waiting for write-back, and is freed or recycled once the last reference is gone; a recycled buffer has the requested size and exactly one reference. Typed element reads return exactly what was last written to those bytes, and a copy equals the original and is independent of it. A submitted buffer is delivered to its destination exactly once after its latency, or released if it has no destination.",
     ["histories", "inputs", "schedules"], "all sequences of allocate, copy, reference, release, clear, submit and advance; all sizes, contents and element indices",
     "the tests check a handful of fixed sequences and sizes",
     ["generic/data_buffer.h", "generic/data_buffer.cc", "generic/ref_count.h"],
     [("free lists indexed by size, reference count, delay line record", "generic/data_buffer.cc, generic/data_buffer.h")])
prop("P03", "Field extraction recipes gather exactly the masked bits",
     "For every bit mask, applying the recipe derived from it to any value yields the bits selected by the mask, packed in order from the least significant end, with nothing else. The C++ source text written for the recipe computes the same value for every input.",
     ["inputs", "programs"], "all bit masks and all 64 bit input values",
     "the tests try a few masks and values",
     ["decoder/extract.h", "decoder/extract.cc"],
     [("grouping of mask runs by shift distance; interpreter and code writer", "decoder/extract.cc GetExtractionRecipe/ExtractValue/WriteExtraction")])
prop("P04", "Reference counted objects live exactly as long as they are referenced",
     "An object that counts references starts with one reference, reports the number of references currently held after any sequence of taking and dropping references, and is disposed of exactly once, when the last reference is dropped and not before.",
     ["histories"], "all sequences of taking and dropping references, however many",
     "the tests take one or two references",
     ["generic/ref_count.h"], [("count with disposal hook", "generic/ref_count.h ReferenceCount")])
prop("P05", "Immediate and literal operands deliver their constant in every type",
     "An immediate or literal operand returns, for every element index and every requested integer width and signedness, the constant it was made with converted to that type as C++ conversion does; the boolean reading is true exactly if the constant is not zero. A vector immediate returns the element at the requested index. Its shape is the one given (one element by default), and its text is the one given or the decimal value.",
     ["inputs"], "all values of all operand types, all indices",
     "the tests use a few values of some types",
     ["generic/immediate_operand.h", "generic/literal_operand.h"],
     [("typed accessors over a stored constant", "generic/immediate_operand.h, generic/literal_operand.h")])
prop("P06", "Status registers read as the current value of the attached conditions",
     "Reading a status register yields, in every bit, the value that the condition attached to that bit has at the time of the read, or zero if none is attached; a read under a mask yields the same in the bits of the mask and zero in the others, and consults only the conditions in the mask. The register is read only: writing to it changes nothing it reads and leaves the writer's buffer to the writer. Operands deliver the register's value converted to any requested type.",
     ["inputs", "histories", "configurations"], "all masks, all condition values, all register widths, all sequences of change and read",
     "the tests use one 8 bit register with one mask",
     ["generic/status_register.h", "generic/state_item_base.h", "generic/state_item_base.cc", "generic/operand_interface.h"],
     [("buffer rebuilt from the conditions on every read", "generic/status_register.h StatusRegister::data_buffer")])
prop("P07", "Raised program errors stay visible with their messages until cleared",
     "An error is reported as present exactly from the moment it is raised until it is cleared, with all its messages in the order raised; masking an error only moves it between the masked and the unmasked report and never loses it. Raising an error of an unknown name is reported as an internal error naming it, and names can be registered only once. Clearing one error leaves all others as they were.",
     ["histories"], "all sequences of raising, clearing, masking, unmasking, adding and querying over any names",
     "the tests follow a few fixed sequences",
     ["generic/program_error.h", "generic/program_error.cc"],
     [("per-name error record and sets of masked/unmasked active errors", "generic/program_error.cc ProgramErrorController")])
prop("P08", "Floating point classification follows IEEE 754 for every bit pattern",
     "For every half, single and double precision bit pattern, held in a floating point or integer type of that width, the helpers classify it (not-a-number, quiet or signalling, infinity, subnormal, zero, sign, exponent) as IEEE 754 defines. Converting any half precision value to single precision is exact, preserves its sign and class, and integer type helpers map every type to the same-size signed or unsigned type.",
     ["inputs"], "all bit patterns of the three formats",
     "the tests check some values of each class",
     ["generic/type_helpers.h", "generic/signed_type.h"],
     [("format parameters and bit tests", "generic/type_helpers.h FPTypeInfo, HalfFP")])
prop("P09", "Template expressions evaluate to their arithmetic value or report an error",
     "Evaluating an expression tree over constants, template parameters, slot constants and functions yields the value that integer arithmetic gives, or an error if an operand fails, is not a number, or a division is by zero; it never crashes. Substituting arguments for parameters and then evaluating gives the value of the expression with those arguments, leaves the original unchanged, and copies are independent and complete. An expression is reported as constant exactly if it contains no parameter.",
     ["inputs", "programs"], "all expression trees, all constants and all arguments",
     "the tests evaluate a few trees with small constants",
     ["decoder/template_expression.h", "decoder/template_expression.cc"],
     [("expression tree visitors", "decoder/template_expression.cc")])
prop("P10", "Generated identifiers are well formed, and named resources are kept apart",
     "Names are converted as the naming convention says, for every name: Pascal case drops underscores and capitalises the letter at the start of every word, snake case puts an underscore before every capital letter but a leading one and lowers all letters, header guards turn path separators and dots into underscores and raise all letters; nothing else is changed, lost or reordered. The resource registry returns one resource per name, always the same one, refuses to create a name twice, and never loses or merges distinct names or their attributes.",
     ["inputs", "histories"], "all names and all sequences of registrations and lookups",
     "the tests try a few names",
     ["decoder/format_name.h", "decoder/format_name.cc", "decoder/resource.h", "decoder/resource.cc"],
     [("character-wise conversion", "decoder/format_name.cc"), ("map by name with subsets", "decoder/resource.cc ResourceFactory")])
prop("P11", "Resource bit sets behave as finite sets of positions",
     "A bit set contains exactly the positions that were set and not cleared since, whatever its size, across growing, shrinking, copying and moving. Union, intersection, difference and symmetric difference, the overlap test, counting, equality and the search for the next member agree with the same operations on mathematical sets, for operands of equal or different size.",
     ["inputs", "histories"], "all positions, sizes and contents; all sequences of operations",
     "the tests use a few sets of fixed contents",
     ["generic/resource_bitset.h", "generic/resource_bitset.cc"],
     [("word array with size in bits", "generic/resource_bitset.cc ResourceBitSet")])
prop("P12", "A simple resource is reserved exactly from acquisition to release",
     "A resource reads as taken exactly between being acquired (alone or as part of a set) and being released, and neither operation on one resource affects any other resource in the pool. A set is free exactly if all its members are free, and acquiring or releasing it acts on all its members. A resource operand with a latency releases its resources after exactly that many cycles.",
     ["histories", "schedules", "configurations"], "all pool sizes, set memberships and sequences of acquire, release and advance",
     "the tests use one small pool and a few sequences",
     ["generic/simple_resource.h", "generic/simple_resource.cc", "generic/simple_resource_operand.h", "generic/resource_operand_interface.h"],
     [("pool-wide bit set and per-set masks", "generic/simple_resource.cc"), ("delay line of releases", "generic/simple_resource_operand.h")])
prop("P13", "A complex resource is busy in exactly the cycles reserved for it",
     "A reservation of future cycles of a resource makes it busy in exactly those cycles as time passes, a release frees exactly the cycles named, and a request is accepted exactly if none of the cycles it names is busy. Reservations of different requests add up, time never moves a reservation to another cycle, and an operand's begin and end cycle name exactly that span of the window.",
     ["histories", "schedules", "inputs"], "all window depths, masks, time steps and sequences of operations",
     "the tests use a few masks; two of them expect a wrong result (see the known findings)",
     ["generic/complex_resource.h", "generic/complex_resource.cc", "generic/complex_resource_operand.h", "generic/complex_resource_operand.cc"],
     [("bit window shifted as time passes", "generic/complex_resource.cc"), ("cycle mask of an operand", "generic/complex_resource_operand.cc")])
prop("P14", "Registers deliver what was last written, at the time it takes effect",
     "Reading a register, by typed access, by whole buffer or through any source operand, in any type and element, yields the value most recently written to it that has taken effect; a write through a destination operand takes effect after exactly its latency, and a pending write does not show before that. Registers are independent of each other. A copy obtained for update starts with the current contents, and every buffer is released exactly once.",
     ["histories", "schedules", "inputs"], "all sequences of writes with any latencies, reads and clock advances, over all values",
     "the tests write and read a few fixed values",
     ["generic/register.h", "generic/register.cc", "generic/state_item.h", "generic/state_item_base.h", "generic/state_item_base.cc", "generic/arch_state.h", "generic/arch_state.cc", "generic/operand_interface.h"],
     [("buffer exchanged on write-back", "generic/register.cc RegisterBase"), ("typed operands", "generic/register.h")])
prop("P15", "State items and operands describe the state they stand for",
     "A state item reports the name, shape, element size and total size it was created with, for every shape. Its operands refer to it, report its shape and latency, and are shown by its name or by the text given. A write to a discarding destination has no effect and leaks nothing, and an operand wrapping an object delivers that object. Looking up a state item by name finds exactly the one registered.",
     ["inputs", "configurations"], "all names, shapes, element sizes and latencies",
     "the tests use a few fixed shapes and names",
     ["generic/state_item_base.h", "generic/state_item_base.cc", "generic/state_item.h", "generic/register.h", "generic/devnull_operand.h", "generic/wrapper_operand.h", "generic/variant_helper.h", "decoder/base_class.h", "generic/operand_interface.h"],
     [("shape and size computed on construction", "generic/state_item_base.cc")])
prop("P16", "A fifo delivers every accepted element once, in order",
     "Elements leave a fifo in exactly the order in which they were pushed, each once and unchanged. A push is accepted exactly if there is room in the fifo, whose capacity is the configured depth, including room reserved for it, and an overflow or underflow is reported as a program error and changes nothing. The reported fill level, free space and the full and empty states always agree with the elements pushed, popped and reserved.",
     ["histories", "inputs"], "all capacities, configured depths and all sequences of reserve, push, pop, peek and write-back",
     "the tests push and pop a few elements",
     ["generic/fifo.h", "generic/fifo.cc"],
     [("bounded deque of buffers with reservations", "generic/fifo.cc FifoBase")])
prop("P17", "Tokens and fifo notifications follow the elements exactly",
     "The tokens taken from a shared pool are always exactly one per element held in the fifos that draw on it, so that the pool can never be exceeded nor leak, whatever pushes and pops fail. A fifo with notification calls its callback exactly when it stops or starts being empty.",
     ["histories"], "all pool and fifo sizes and all sequences of push, pop and reserve over several fifos sharing a pool",
     "the tests use one fifo and sequences in which no operation fails",
     ["generic/token_fifo.h", "generic/token_fifo.cc", "generic/fifo_with_notify.h"],
     [("token counter shared between fifos", "generic/token_fifo.cc"), ("callbacks around push and pop", "generic/fifo_with_notify.h")])
prop("P18", "A fetch never delivers a wrong or invalidated instruction",
     "The decode cache delivers, for every address, an instruction decoded for exactly that address, after the last invalidation of that address, and fails only if decoding fails. Invalidating an address, a range or everything drops exactly the instructions at those addresses, and terminates. The cache holds one reference to each instruction that it caches and none to others, and releases everything when destroyed.",
     ["histories", "inputs", "configurations"], "all addresses and ranges, cache sizes and increments, and all sequences of fetches and invalidations",
     "the tests fetch and invalidate a few fixed aligned addresses",
     ["generic/decode_cache.h", "generic/decode_cache.cc", "generic/decoder_interface.h"],
     [("direct mapped table of instructions", "generic/decode_cache.cc")])
prop("P19", "Instructions keep, deliver and dispose of their operands and children",
     "An instruction delivers its operands, resources, predicate and attributes as given and in the order given, and disposes of each exactly once, when it is disposed of itself. Instructions linked in lists or as children live exactly as long as they are referenced and never refer to a disposed parent. Executing an instruction runs its semantic function once with the context given. The semantic helpers read the sources in order in the requested type and write the result of the operation to every element of the destination.",
     ["histories", "inputs"], "all operand lists, all shapes of instruction trees, all orders of releasing them, all source values",
     "the tests build a few instructions and release them in one order",
     ["generic/instruction.h", "generic/instruction.cc", "generic/instruction_helpers.h"],
     [("owned operand vectors and reference counted lists", "generic/instruction.cc"), ("operation templates", "generic/instruction_helpers.h")])

prop("P20", "A memory returns what was last stored",
     "Loading from a memory returns, byte by byte, what was last stored at those addresses, for any mix of scalar and vector accesses, sizes, alignments and block boundaries, and the fill value elsewhere. Masked elements are not accessed and accesses outside a memory have no effect on it. The instruction given with a load is executed exactly once, with its context, after the latency of the data, and neither is released before nor kept after.",
     ["inputs", "histories", "configurations"], "all addresses, sizes, masks, values, latencies and histories of accesses",
     "the tests store and load a few fixed patterns",
     ["util/memory/flat_memory.cc", "util/memory/flat_demand_memory.cc", "util/memory/flat_demand_memory.h", "util/memory/memory_interface.h"],
     [("blocks allocated on demand", "util/memory/flat_demand_memory.cc"), ("one block", "util/memory/flat_memory.cc")])
prop("P21", "Tags follow the data they belong to",
     "A tagged memory keeps one tag for each granule: a tagged load returns the tags last stored with the data, and every store without tags clears exactly the tags of the granules that it touches. Through the transactor, untagged memory can be used where tagged memory is expected with the tags read as zero.",
     ["inputs", "histories", "configurations"], "all addresses, sizes, masks, tags and histories of accesses",
     "the tests store and load a few aligned blocks",
     ["util/memory/tagged_flat_demand_memory.cc", "util/memory/tagged_flat_demand_memory.h", "util/memory/tagged_to_untagged_memory_transactor.cc", "util/memory/tagged_memory_interface.h"],
     [("tags in a memory of their own", "util/memory/tagged_flat_demand_memory.cc")])
prop("P22", "Atomic operations are exact; store conditional needs an undisturbed link",
     "Each atomic operation returns the old value of the addressed word in memory and leaves there the result of the operation on it and the operand, for every size. A store conditional succeeds, and stores, exactly if the address has been load linked and nothing has been stored to the linked location since. Other accesses pass through to the memory unchanged.",
     ["inputs", "histories"], "all operations, sizes, values and addresses, and all histories of load linked, stores and store conditional",
     "the tests perform each operation on one value",
     ["util/memory/atomic_memory.cc", "util/memory/atomic_tagged_memory.cc", "util/memory/memory_interface.h"],
     [("set of linked addresses", "util/memory/atomic_memory.cc")])
prop("P23", "A request goes to the one target that covers it",
     "A router forwards every request, unchanged and once, to the target whose range contains the whole request, or to the default target if no range is touched, and to none otherwise. Ranges that overlap are refused. Names of initiators and targets refer to the same object throughout.",
     ["inputs", "configurations", "histories"], "all layouts of ranges, all requests",
     "the tests use a few layouts and requests well inside a range",
     ["util/memory/single_initiator_router.cc", "util/memory/memory_router.cc", "util/memory/single_initiator_router.h"],
     [("ordered map from ranges to targets", "util/memory/single_initiator_router.cc")])
prop("P24", "A watched access is reported, and only that",
     "A memory watcher calls the callback of every watched range that an access touches, exactly once per scalar access or enabled element with its address and size, before a load and after a store; nothing else is reported, and the request is passed on once and unchanged. Watch ranges that overlap or are malformed are refused, and a cleared range is not watched any more.",
     ["inputs", "histories"], "all watch ranges, all histories of setting and clearing them, all accesses",
     "the tests watch one or two ranges and access their middle",
     ["util/memory/memory_watcher.cc", "util/memory/tagged_memory_watcher.cc", "util/memory/memory_watcher.h"],
     [("ordered map with overlapping ranges equivalent", "util/memory/memory_watcher.h AddressRangeLess")])
prop("P25", "The cache model is transparent and its counters are right",
     "Requests to a cache have the same effect as requests to the memory behind it, including latency, instruction, context and reference counts. The hit, miss, write-back, around and non-cacheable counters are those of a set associative cache of the configured geometry with least recently used replacement, for every sequence of accesses. Invalid configurations are refused.",
     ["inputs", "histories", "configurations"], "all geometries, cacheable ranges and access sequences",
     "the tests sweep linearly over addresses",
     ["util/memory/cache.cc", "util/memory/cache.h"],
     [("lookup and replacement", "util/memory/cache.cc CacheLookup, ReplaceBlock")])
prop("P26", "Counters, configuration and components",
     "A counter has the value of exactly the operations done on it while enabled, and its listeners see every update. A configuration entry accepts only values of its type, and a refused value changes nothing. In a component each name refers to the one counter, entry or child added under it. A configuration exported from a component tree and imported into another gives equal values.",
     ["inputs", "histories"], "all values, names and operation histories",
     "the tests use a few fixed names and values",
     ["generic/component.cc", "generic/component.h", "generic/config.h", "generic/counters.h", "generic/counters_base.h"],
     [("maps from names to entries", "generic/component.cc"), ("typed values and listeners", "generic/counters.h, generic/config.h")])
prop("P27", "Execution stops exactly at enabled breakpoints",
     "There is a breakpoint instruction in memory at an address as long as an action at it is enabled, and the original instruction otherwise. Reaching an address performs exactly its enabled actions once each. An operation that fails, because there is no such action or memory cannot be written, has no effect. A breakpoint halts exactly if it is set and enabled, and does not disturb other actions.",
     ["histories", "inputs"], "all histories of setting, clearing, enabling and disabling, and all write failures",
     "there are no tests of these classes",
     ["generic/action_point_manager_base.cc", "generic/action_point_manager_base.h", "generic/breakpoint_manager.cc", "generic/breakpoint_manager.h"],
     [("number of enabled actions per address", "generic/action_point_manager_base.cc")])
prop("P28", "The memory use profile lists exactly the words accessed",
     "The profile lists, in order and as maximal ranges, exactly the words touched by the accesses of up to 8 bytes made while profiling was enabled, including accesses and ranges across segments. Requests are passed on once and unchanged.",
     ["inputs", "histories"], "all sequences of accesses",
     "there are no tests of these classes",
     ["util/memory/memory_use_profiler.cc", "util/memory/memory_use_profiler.h"],
     [("bit maps of words per segment", "util/memory/memory_use_profiler.cc MemoryUseTracker")])

prop("P29", "Generated extractors return exactly the bits of the field",
     "The extractor the format generator emits for a field, format reference, replicated reference or overlay returns, for every instruction word, the value of exactly the bits the format describes (left to right from the most significant bit), zero- or sign-extended as declared, for every field and format width; packed-struct extractors agree with the default layout, and an extractor promoted to a base format agrees with every format derived from it.",
     ["inputs"], "all instruction words and all field layouts",
     "tests compare strings of a few generated overlays; the generated code itself is never run",
     ["decoder/format.cc", "decoder/format.h", "decoder/overlay.cc", "decoder/overlay.h", "decoder/bin_format_visitor.cc"],
     [("code emitted per field/format/overlay", "decoder/format.cc Generate*Extractor"), ("overlay value expressions", "decoder/overlay.cc Write*ValueExtractor"), ("ExtractBits helper template", "decoder/bin_format_visitor.cc kTemplatedExtractBits")])

prop("P30", "Generated inserters replace exactly the bits of the field",
     "The inserter the format generator emits for a field, format reference, replicated reference or overlay returns, for every instruction word and every value, the word with exactly the described bits replaced by the value's low bits and all other bits unchanged.",
     ["inputs"], "all instruction words, values and field layouts",
     "there are no tests of the generated inserters",
     ["decoder/format.cc", "decoder/overlay.cc", "decoder/bin_format_visitor.cc"],
     [("code emitted per field/format/overlay", "decoder/format.cc Generate*Inserter"), ("InsertBits helper template", "decoder/bin_format_visitor.cc kTemplatedInsertBits")])

prop("P31", "Generated decoders decode each word to the instruction it matches",
     "The decoder the generator emits for an instruction group returns, for every instruction word, the opcode and format of an instruction all of whose constraints the word satisfies (the specialization's opcode if a specialization's constraints hold too), and kNone when no instruction matches. Constraints are accepted exactly when the field can hold the value, and an encoding's mask and value describe its equal constraints.",
     ["inputs"], "all instruction words, for the groups of the battery and the RISC-V descriptions",
     "tests decode a handful of words with one generated decoder and cannot try every word",
     ["decoder/encoding_group.cc", "decoder/instruction_group.cc", "decoder/instruction_encoding.cc", "decoder/overlay.cc", "decoder/extract.cc"],
     [("emitted decode tables and conditions", "decoder/encoding_group.cc EmitDecoders"), ("grouping of encodings", "decoder/encoding_group.cc AddSubGroups"), ("masks and values", "decoder/instruction_encoding.cc ComputeMaskAndValue")])

prop("P32", "The value set of a field constraint holds exactly the values that satisfy it",
     "The value set made for a constraint on a message field (equal, unequal, less, greater, presence of a one-of member, or an explicit range) holds exactly the values that satisfy the constraint, whatever the type of the field. Intersecting two sets leaves exactly the values of both, union exactly the values of either, and a set found empty after an intersection has no value in common, so two instructions are reported as ambiguous exactly if one value can satisfy both. Sets of different or unordered types are refused without a crash, and copies are independent.",
     ["inputs"], "all constraint kinds, bounds and candidate values of all value types, in every order",
     "tests intersect three or four particular ranges of 32 bit integers",
     ["decoder/proto_constraint_value_set.cc", "decoder/proto_constraint_value_set.h", "decoder/proto_constraint_expression.cc", "decoder/proto_constraint_expression.h"],
     [("ranges of a constraint", "decoder/proto_constraint_value_set.cc ProtoConstraintValueSet"), ("intersection", "decoder/proto_constraint_value_set.cc IntersectSubrange"), ("expressions", "decoder/proto_constraint_expression.cc GetValue")])

prop("P33", "Generated instruction decoders build the instruction that was described",
     "For every instruction of an instruction set description that the generator accepts, the emitted decoder builds exactly the instruction described, whatever other instructions the description holds: its operands in order with their latencies, its child instructions, semantic function, size, resources used, acquired and held with their times, attribute values, and the disassembly with its numbers in the stated format, width, shift and relation to the address. Opcodes inherited from base slots, overridden, deleted, or made by generator macros and templates get what they inherit or override, and nothing leaks into an instruction from another one. An opcode that cannot be decoded gets the default instruction. Legal descriptions are accepted and the emitted code compiles.",
     ["inputs"], "all instructions of the descriptions, all addresses, entries, opcodes, and operand values",
     "the tests look at a handful of strings in the emitted text; what the emitted decoder does is never run, and sharing of emitted functions among instructions only shows in large descriptions",
     ["decoder/instruction_set_visitor.cc", "decoder/slot.cc", "decoder/instruction_set.cc", "decoder/instruction.cc", "decoder/opcode.cc", "decoder/resource.cc", "decoder/InstructionSet.g4"],
     [("setters of one instruction", "decoder/slot.cc GenerateResourceSetter, GenerateDisassemblySetter, GenerateAttributeSetter"), ("inheritance", "decoder/instruction_set_visitor.cc VisitOpcodeList, PerformOpcodeOverrides"), ("the word decoder", "decoder/instruction_set.cc GenerateClassDefinitions")])

prop("P34", "Binary format descriptions are understood as written",
     "A decoder made from a binary format description treats every instruction word as the description says: numbers in every notation (decimal, hexadecimal, binary, with digit separators, up to 64 bits) have their value, instructions generated from patterns are as if written out, specializations take precedence over the instruction they specialize for exactly the words that meet their constraints in every group the instruction belongs to, inherited formats and format references give the fields their names, and merging groups or including files changes nothing else. A description with a mistake (undefined, redefined, circular or overlapping-width entities, values out of range, syntax errors) is refused with an error and neither crashes the generator nor gives a decoder.",
     ["inputs"], "all instruction words of every format of the descriptions, for each description",
     "the tests check that the visitor accepts three small files; nothing decodes a word with what is emitted",
     ["decoder/bin_format_visitor.cc", "decoder/BinFormat.g4", "decoder/instruction_group.cc", "decoder/encoding_group.cc", "decoder/format.cc", "decoder/bin_encoding_info.cc"],
     [("numbers", "decoder/bin_format_visitor.cc ConvertToInt"), ("specializations", "decoder/instruction_group.cc ProcessSpecializations"), ("generators", "decoder/bin_format_visitor.cc ProcessSingleGroup, VisitInstructionDef"), ("inheritance", "decoder/format.cc ComputeAndCheckFormatWidth")])

prop("P35", "Socket streams carry every character and report what they cannot carry",
     "What is written to a stream over a socket arrives on the socket as exactly those characters, in order, a line feed as carriage return and line feed, however the text is split into writes and however many of the characters each write of the socket takes; reading delivers every character of the socket, including 0xff, in order, except for one carriage return directly before a character, and then the end of the file. When the socket refuses or loses the connection, the stream fails instead of losing characters silently, and interrupted calls are repeated. The socket is closed exactly once.",
     ["inputs", "faults"], "all byte values, every split of the characters over the writes and reads of the socket, an error, interruption or end of file at every point",
     "no test writes to or reads from a socket stream", ["util/renode/socket_streambuf.h"],
     [("write", "util/renode/socket_streambuf.h xsputn, overflow"), ("read", "util/renode/socket_streambuf.h underflow")])
prop("P36", "The GDB server shows and changes exactly the state a debugger names",
     "Each command of the GDB remote protocol has the effect the protocol gives it and no other: reads of memory and registers answer with the bytes of the core's state, writes change exactly the memory or registers named, breakpoints are set and cleared at the address named, continue and step run the core once and report how it stopped, also with thread ids, thread suffixes, vCont action lists and escaped characters; queries change nothing. Commands that are malformed, carry a wrong checksum, name a thread, register or length that does not exist, or that the core fails, are answered with an error and have no effect. Every reply is a well-formed packet with its checksum, sent again when refused. No sequence of bytes from the debugger, and no failure of the connection at any point, makes the server read or write outside its buffers, and each socket is closed exactly once.",
     ["inputs", "faults"], "commands with symbolic addresses, data and register values, every command letter with arbitrary payloads of up to 3 or 4 bytes, packets up to and beyond the size of the buffer, the connection ending or failing after each byte",
     "the gdb server has no tests", ["util/gdbserver/gdbserver.cc", "util/gdbserver/gdbserver.h"],
     [("packets", "util/gdbserver/gdbserver.cc Connect, AcceptGdbCommand, Respond"), ("commands", "util/gdbserver/gdbserver.cc ParseGdbCommand"), ("threads", "util/gdbserver/gdbserver.cc GetThreadId, GdbVContinue"), ("sockets", "util/gdbserver/gdbserver.cc Terminate")])

prop("P37", "Memory mapped devices do what software writes to their registers asks",
     "A store to a register of the uart at any address with the register's offset changes exactly that register, with the meaning the line control register selects, and sends exactly the characters written to the transmit register, in order; a load returns the value last written (zero before) or zero where nothing is; accesses that are not of whole registers have no effect. A load or store passed on to renode reaches its bus once, with the address, size and bytes of the access, and gives zeros when there is no bus. A load with latency executes its instruction once, after the latency.",
     ["inputs"], "histories of 2 or 3 stores at every offset with any data and base address; all access sizes up to 16 bytes; latencies 0..3",
     "neither device has a test", ["util/other/simple_uart.cc", "util/renode/renode_memory_access.cc"],
     [("uart registers", "util/other/simple_uart.cc Read, Write"), ("renode accesses", "util/renode/renode_memory_access.cc Load, Store"), ("latency", "util/renode/renode_memory_access.cc FinishLoad")])
prop("P38", "Programs are loaded as their file says, and profiles count each instruction",
     "Loading a program stores exactly the bytes of each loadable segment at its physical address (or its virtual address if it has none), in the memory its flags or the memory descriptors select, and nothing else; files that cannot be read, and writes that fail, are reported. Symbols have the value and size of the symbol table, a function is found by its address and by every address inside it, and the stack size is that of the program. An instruction profile counts every sample that lies in an executable segment exactly once, at its address, however segments are spaced and whatever the granularity, and never touches memory outside its counters.",
     ["inputs"], "programs of up to 2 or 3 segments at any address with any flags, symbol tables of 2 symbols in every relative position with every query address, profiles over 1 to 3 segments with gaps around the coalescing distance",
     "the loader's test loads one program; the profiler has no test", ["util/program_loader/elf_program_loader.cc", "util/other/instruction_profiler.cc"],
     [("segments", "util/program_loader/elf_program_loader.cc LoadProgram"), ("symbols", "util/program_loader/elf_program_loader.cc LoadSymbols, GetFunctionName"), ("profile ranges", "util/other/instruction_profiler.cc SetElfLoader"), ("profile output", "util/other/instruction_profiler.cc WriteProfile")])

prop("P39", "Requests from Renode reach the core they name, and their outcome is returned",
     "A core constructed or connected for Renode has an id, and a name, of its own until it is destructed; connecting to an existing id attaches to that core, keeping its bus functions and supplying only missing ones. Every register, memory, configuration, interrupt, executable and image request reaches exactly the core named, once, unchanged and whole, and its result or failure is returned; requests naming no core fail and reach none. A step asks the core for exactly the instructions that are left, ends when the core halts or fails, and reports the exact number executed and the reason.",
     ["inputs", "histories"], "histories of constructing, connecting and destructing over several ids with failures; every request with all 64 bit arguments, results and failures; all step counts up to three times the greatest int; images around the buffer size",
     "the interface has no tests", ["util/renode/renode_mpact.cc", "util/renode/renode_mpact.h"],
     [("instances", "util/renode/renode_mpact.cc Construct, Connect, Destroy"), ("requests", "util/renode/renode_mpact.cc ReadRegister, WriteRegister, ReadMemory, WriteMemory, SetConfig, SetIrqValue, LoadExecutable"), ("stepping", "util/renode/renode_mpact.cc Step"), ("images", "util/renode/renode_mpact.cc LoadImage")])

prop("P40", "Renode and the command line interface take turns on one core",
     "A core shared by Renode and a connected command line interface is never used by both at once, and each request reaches it once and unchanged, during one of Renode's steps or when the program is done. While the command line interface is in control Renode's step waits, instructions executed meanwhile count towards that step, and the core executes nothing outside of Renode's steps; both are told exactly how many instructions were executed, and a step is complete unless the program halts. The two never wait for each other forever, and a command line interface that disconnects, or lets the program run, hands control back.",
     ["schedules", "inputs", "histories"], "all interleavings of the two threads at their synchronisation points, over all commands, step counts, breakpoints and program lengths within the bounds",
     "there are no tests of it, and a test samples a few schedules", ["util/renode/renode_cli_top.cc", "util/renode/renode_cli_top.h", "util/renode/cli_forwarder.cc"],
     [("stepping for renode", "util/renode/renode_cli_top.cc RenodeStep"), ("commands", "util/renode/renode_cli_top.cc CLIStep, CLIRun, CLIHalt"), ("control", "util/renode/renode_cli_top.h DoWhenInControl"), ("connection", "util/renode/renode_cli_top.cc SetConnected")])

prop("P41", "Assembled programs hold what their source says",
     "An assembled section holds exactly the values, characters, space, padding and instructions of its statements, in their order, and every label is the address (in an executable) or offset (in a relocatable file) of what follows it, for any base address and file class. What follows an alignment is aligned, each instruction is encoded for its own address, symbols are local or global as declared with the local ones first, every relocation names its section, place and symbol, the entry point and segments are where they were asked for, and a source that cannot be assembled (malformed arguments, symbols defined twice or, in an executable, not at all, instructions that cannot be encoded) is refused rather than assembled to something else.",
     ["inputs", "programs"], "all programs, values, characters, base addresses and data starts within the bounds, for both file classes",
     "the tests assemble one program, without space or alignment in text or data, errors, several values or relocations of data", ["util/asm/simple_assembler.cc", "util/asm/simple_assembler.h", "util/asm/resolver.cc", "util/asm/opcode_assembler_interface.h"],
     [("source", "util/asm/simple_assembler.cc Parse, ParsePassTwo"), ("directives", "util/asm/simple_assembler.cc ParseAsmDirective, GetValues, ExpandEscapes"), ("layout", "util/asm/simple_assembler.cc CreateExecutable, UpdateSymbolsForExecutable"), ("relocations", "util/asm/simple_assembler.cc CreateRelocatable, AddRelocationEntries"), ("symbols", "util/asm/resolver.cc Resolve")])

prop("P42", "Actions of a delay line may schedule further actions on it",
     "An action may, while it takes effect, schedule further actions on the delay line it is in, also with latencies for which the line has to grow: those take effect exactly once, after exactly their own latency from that cycle, the other actions due in the same cycle still take effect in their order, and the line is empty once all are done. The same holds for functions that schedule functions and for destinations of data buffers that submit data buffers, whose references are released as for any other.",
     ["schedules", "histories"], "all initial sizes, positions, latencies and chains of actions within the bounds",
     "no test schedules an action from within an action", ["generic/delay_line.h", "generic/function_delay_line.h", "generic/data_buffer.h", "generic/data_buffer.cc"],
     [("the slot being applied while the line is enlarged", "generic/delay_line.h DelayLine::Advance/Add/Resize")])

#MORE


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": "mpact/sim/" + w} for n, w in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        assert glob.glob(os.path.join(V, "harness", p["id"] + "_*.cc")), p["id"]
        checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                       "technique": "symbolic execution of the repository's LLVM bitcode, assertions and memory safety decided by Z3",
                       "level": "model_checking",
                       "level_note": "Holds for every value of the symbolic inputs within the bounds listed in the evidence (BOUND lines of harness/%s_*.cc); "
                                     "every counterexample is replayed on the natively compiled code before it is reported. Trusts clang 18, Z3, the executor in engine/ "
                                     "and the stand-ins for absl/libstdc++ internals in shim/ and runtime/.%s" % (p["id"], " " + p["note"] if p["note"] else "")})
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --build-only", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Known findings and fixed defects: known_findings.txt."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
