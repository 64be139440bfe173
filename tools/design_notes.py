NOTE["P09"] = ["Functions of two arguments and user functions are covered; string-valued expressions only for the error path."]
NOTE["P13"] = ["Two genuine defects are recorded as known findings (see known_findings.txt); their entries report them on every run."]
NOTE["P29"] = ["Overlays of formats wider than 64 bits call a three argument ExtractBits that does not exist (the emitted code does not compile); outside the bounds. Packed-struct layouts: formats up to 128 bits, fields up to 64."]
NOTE["P31"] = ["Contradictory constraints (an instruction that matches no word) and 64 bit wide field constraints, which the generator refuses, are outside the bounds."]
NOTE["P32"] = ["The proto decoder generator around the value sets is unfinished upstream and needs protobuf; only its constraint arithmetic is decided."]
NOTE["P33"] = ["ANTLR is not installed. tools/antlr_mini.py turns InstructionSet.g4 (read from /repo on every run) into a recursive descent parser with the context classes of ANTLR's C++ target; the visitor and the generator are the repository's own. The repository's instruction_set_visitor_test, slot_test, opcode_test, instruction_set_test and bundle_test pass on top of it (run by hand).",
               "Descriptions with a mistake (harness/gen/isa_bad.py) are only run: the generator has to refuse them.",
               "Setting up of bundles is unfinished upstream and outside the bounds; the assembler (encoder) output is not decided here."]
NOTE["P34"] = ["ANTLR is replaced as in P33 (BinFormat.g4 is read from /repo on every run). The repository's bin_format_visitor_test and bin_encoding tests pass on top of it (run by hand), except for the wording of one syntax error.",
               "Descriptions with a mistake (harness/gen/bin_bad.py) are only run: the generator has to refuse them. Two mistakes in specializations are known findings."]
NOTE["P36"] = ["The standard streams are executed as code of libstdc++ (runtime/rt_io.cc), absl and RE2 as models (shim/absl, shim/re2: a backtracking matcher). Symbolic digits are limited to windows of three digits or one byte per command, because the solver has to carry the checksum of the packet along; the windows are placed everywhere in the number.",
    "The server supports one core; with the protocol's optional thread ids that means thread 1 (and -1 and 0 where the protocol allows them)."]
ORACLE["P39"] = "recording cores behind the interface, a map from id to core, and a model of a file (shim_fs/fstream)"
ORACLE["P40"] = "a model of the core that counts instructions per thread and knows who is entitled to step it; which thread continues is a path choice at every lock, unlock, wait and call to the core (harness/vf_threads.h, coroutines of the engine), step counts, breakpoint and program length are symbolic"
NOTE["P40"] = ["After a halt or the end of the program with no command line interface connected, Renode's next step waits for one to connect; that is taken as intended.",
    "After a step of Renode that failed, the command line interface may go on stepping; what Renode's following steps report then is not decided."]

ORACLE["P41"] = "a model of the program as a list of statements with their bytes, labels and uses, from which contents, addresses, symbols and relocations are computed; digits, characters, base address and data start are symbolic, the statements are path choices; the file is examined in the layout of the ELF tables (shim_asm, a model of ELFIO's writer)"
NOTE["P41"] = ["Not claimed: values that do not fit their directive (`.short 70000` is truncated), contents given to `.bss` (dropped deliberately), a comment character inside a string, symbols defined in one call of `Parse` and used in another.",
               "ELFIO's own serialisation is outside; what is decided is the sections, symbols and relocations that it is given."]
ORACLE["P42"] = "a list of what is due when, computed from the latencies; sizes, positions, latencies and who schedules are path choices, payloads are symbolic"
