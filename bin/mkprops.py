#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Every mnemonic selects the processor's own opcode, per selected ISA",
 "For every instruction name, in any letter case, the assembler recognises it exactly when it belongs to the selected instruction set (the 6809 set, or the 6809 set plus the 6309 extensions) and the opcode and page byte used for each of its addressing forms are those of the Motorola MC6809 / Hitachi HD6309 opcode maps, with no form accepted that the processor lacks. Register names obey the same rule: the 6309-only registers exist only when the 6309 is selected.",
 ["inputs", "configurations"], "all name strings of any length and letter case, both ISAs, all addressing forms",
 "The fixtures use lower-case names, one spelling per form and cover a name only in the ISA it belongs to; they cannot show that no other string is accepted or that both table halves stay right in both configurations.",
 ["src/opcode.c", "src/opcode.h", "src/register.c", "dt101/dict.c", "dt101/hash-djb2.c"],
 [("opcode tables and their lookup", "src/opcode.c: opcodes_6809, opcodes_6309, opcode_init, opcode_by_name"), ("register name tables", "src/register.c: reg_name_to_id, reg_id_to_name"), ("case-insensitive dictionary", "dt101/dict.c")],
 observe=["bytes of the output file", "unknown instruction diagnostics"])

prop("C02", "Immediate, direct and extended operands encode the right form and value",
 "For an instruction with an immediate operand the bytes emitted are the immediate opcode followed by the operand value truncated to the operand width, big-endian; for a plain memory operand they are the direct opcode and the low address byte exactly when direct addressing exists for the instruction and is forced by '<' or the address lies in the assumed direct page with no size forced, otherwise the extended opcode and the 16-bit address (an address not yet known takes the extended form). An operand form the instruction does not have, or a wrong operand count, is reported (as an error, or at least a warning where a working encoding exists) and never silently encoded as something else; 6309 immediate-with-memory instructions put the immediate byte between opcode and address.",
 ["inputs"], "all instructions, all 64-bit operand values, all DP settings including none, all size-forcing prefixes, all operand shapes and counts",
 "The fixtures assemble one or two constants per instruction with DP 0; mode choice depends on the value, the DP setting and the prefix together.",
 ["src/instr.c", "src/assemble.c", "src/eval.c", "src/section.c"],
 [("mode selection", "src/instr.c: instr_immediate, instr_address, instr_imm8_mem, instr_inherent"), ("dispatch on opcode type and argument attribute", "src/assemble.c: assemble_prog")],
 observe=["bytes of the output file", "exit status"])

prop("C03", "Indexed operands encode the smallest correct postbyte and offset",
 "For every indexed operand the postbyte and offset bytes emitted denote exactly the register, auto-increment, accumulator offset, indirection and numeric offset written: a constant offset is encoded so that the processor adds precisely that value (modulo 65536), a PC-relative target so that the processor reaches precisely that target, including target zero. Unless a size is forced the smallest offset form that can hold the value is chosen, a forced size is honoured, the value then being truncated to it, and combinations the processor does not have are reported (as an error, or a warning for forms that work although undocumented).",
 ["inputs"], "all base registers, attributes, accumulator offsets, 64-bit offsets, size prefixes, indirection, program counters",
 "The fixtures use a few offsets per mode at one program counter; boundary offsets, sign changes, wraparound and every combination of prefix, register and indirection are not sampled.",
 ["src/instr.c"],
 [("indexed mode table and matching", "src/instr.c: indexed_modes, off_type_compatible, instr_indexed2, instr_indexed"), ("size of PC-relative offset", "src/instr.c: to_rel16")],
 state=[{"name": "program counter", "meaning": "address of the byte being assembled", "where": "cur_section->pc"}],
 observe=["bytes of the output file", "exit status"])

prop("C04", "Branches reach exactly the target written, or are reported out of range",
 "For every short or long branch the displacement emitted is the one that makes the processor continue at the target address modulo 65536, counted from the end of the branch instruction. A short branch whose displacement does not fit a signed byte is reported as an error; a long branch is never out of range; a target that is not yet known reserves the same number of bytes and a wrong operand count is an error.",
 ["inputs"], "all branch opcodes (one- and two-byte), all 64-bit target values, all program counters",
 "The relative fixture branches to nearby labels only; the -128/127 limits, wraparound at the ends of memory and two-byte opcodes with extreme displacements are not reached.",
 ["src/instr.c", "src/section.c"],
 [("displacement computation", "src/instr.c: instr_rel, to_rel16")],
 state=[{"name": "program counter", "meaning": "address of the byte being assembled", "where": "cur_section->pc"}],
 observe=["bytes of the output file", "exit status"])

prop("C05", "Register operands encode the registers named, or are reported",
 "The postbyte emitted for push/pull lists, inter-register transfers, 6309 register arithmetic, block transfers and bit-transfer instructions denotes exactly the registers (and bit numbers, increments and direct address) written, in order. A register that is not allowed in that position, a wrong operand count or an invalid increment combination is an error with nothing encoded; mismatched register sizes are warned about.",
 ["inputs"], "all register lists of any length, all register pairs, attributes, numeric substitutes, both ISAs",
 "The fixtures list a few register combinations; the encoding must be right for every subset and pair.",
 ["src/instr.c", "src/register.c"],
 [("register encodings", "src/instr.c: instr_stack, instr_pair, instr_tfm, instr_reg_mem; src/register.c: reg_tfr_size, reg_tfr_nibble, reg_stack_bit")],
 observe=["bytes of the output file", "exit status"])

prop("C06", "Expression operators compute the documented value and never crash",
 "Every operator applied to any operand values yields the documented result: 64-bit integer arithmetic when both operands are integers (division always floating point), double arithmetic otherwise, 0 or 1 for relational and logical operators, strings compared lexically against strings and otherwise taken as big-endian integers of their last four characters; shift counts outside 0 to 63 and conversions of floating point values beyond 64 bits are left open. No operand values may crash the assembler, and an operation that has no value because an operand has an unsuitable type or value is reported as an error instead of silently assembling as something else.",
 ["inputs"], "all operators, all operand type combinations, all 64-bit integers, all doubles, strings of any length",
 "No fixture exercises expression operators beyond simple sums; extreme values, mixed types and division or modulo by zero are never run.",
 ["src/eval.c", "src/node.c"],
 [("operator evaluation", "src/eval.c: eval_node, eval_node_oper_1, eval_node_oper_2, eval_node_oper_3"), ("casts", "src/eval.c: eval_int, eval_float, eval_int_free, eval_float_free")],
 observe=["bytes of the output file", "exit status"])

prop("C07", "Every emitted byte lands once, in order, at the current put address",
 "Emitting an opcode, byte, word or long stores its bytes big-endian at consecutive addresses starting at the current load address and advances both the program counter and the load address by exactly that many; bytes stored earlier keep their addresses and values, whatever sequence of emissions, ORG, PUT and RMB came before. Reserving space advances both addresses and stores nothing, and assembling below address 0 or beyond 64K is reported as an error.",
 ["inputs", "histories"], "all sequences of emissions and address changes, all span sizes, all addresses",
 "Fixtures emit a few bytes per span; buffer growth boundaries, extreme addresses and interleavings of ORG/PUT/RMB with emission are not sampled.",
 ["src/section.c", "src/section.h", "src/assemble.c"],
 [("span growth and creation", "src/section.c: section_emit, section_emit_*, section_skip"), ("address directives", "src/assemble.c: pseudo_org, pseudo_put, pseudo_rmb, pseudo_align")],
 state=[{"name": "span", "meaning": "run of consecutive bytes at a load address", "where": "struct section_span"}],
 observe=["bytes of the output file", "exit status"])

prop("C08", "Merging spans for output preserves every byte at its address",
 "When the spans of all sections are combined for output, each byte that was emitted appears at its own load address with its own value, spans come out in ascending address order without overlap, and only truly adjacent spans are joined; when padding is requested every gap is filled with zeros so that one span covers everything. Any overlap between emitted spans is reported as an error.",
 ["inputs", "histories"], "all sets of spans: any addresses, sizes, order, number of sections",
 "The section fixtures have a handful of non-overlapping spans; overlaps, containment, duplicates and buffer growth during merging are not exercised.",
 ["src/section.c", "dt101/slist.c"],
 [("coalescing", "src/section.c: section_coalesce, section_coalesce_all, span_cmp"), ("list sort and splice", "dt101/slist.c")],
 observe=["bytes of the output file", "exit status"])

prop("C09", "Motorola S-record output decodes to exactly the assembled image",
 "The S-record file consists of well-formed S1 records of at most 32 data bytes followed by one S9 record; every record's count, four-digit address and checksum are right, and decoding them yields each assembled byte exactly once at its load address and nothing else. The S9 record carries the execution address, or zero if none was given; an image that does not fit 16-bit addresses is reported rather than written as malformed records.",
 ["inputs"], "all images: any number of spans, any span sizes and contents, all load and execution addresses",
 "No test looks at S-record output at all.",
 ["src/output.c", "src/section.c"],
 [("record writer", "src/output.c: output_motorola_srec")], observe=["the output file"],
 hook="loop invariants on the record loops")
prop("C10", "Intel HEX output decodes to exactly the assembled image",
 "The HEX file consists of well-formed data records of at most 32 bytes followed by one end record; every record's count, address and two's-complement checksum are right, and decoding them yields each assembled byte exactly once at its load address and nothing else. The end record carries the execution address, or zero if none was given; an image that does not fit 16-bit addresses is reported rather than written as malformed records.",
 ["inputs"], "all images: any number of spans, any span sizes and contents, all load and execution addresses",
 "No test looks at Intel HEX output at all.",
 ["src/output.c", "src/section.c"],
 [("record writer", "src/output.c: output_intel_hex")], observe=["the output file"],
 hook="loop invariants on the record loops")
prop("C11", "Binary, DragonDOS and CoCo files hold the exact image and header",
 "Raw binary output is exactly the bytes of the padded image; DragonDOS output is the nine-byte header with the load address, length and execution address followed by those bytes; CoCo output is, for each span in order, a five-byte header with its length and load address followed by its bytes, then the five-byte trailer with the execution address. The execution address is the one given by the user (command line over END), else the first load address; an image that does not fit the 16-bit header fields is reported rather than written with wrapped values.",
 ["inputs"], "all images: any number of spans, any span sizes and contents, all load and execution addresses",
 "Tests compare raw binaries only; the other formats and the empty image are never produced.",
 ["src/output.c", "src/section.c", "src/asm6809.c"],
 [("writers", "src/output.c: output_binary, output_dragondos, output_coco, get_exec_addr")], observe=["the output file"],
 hook="loop invariant on the span loop")

prop("C12", "Symbols have one value per pass; changes force another pass",
 "A symbol defined by a label or EQU can be defined only once in a pass (a second definition is an error and leaves the first value in force), while SET may redefine it; looking a symbol up always yields the most recently assigned value, in this or an earlier pass. Whenever a fixed symbol's value differs from the value it had before, or a symbol never assigned (or assigned no value) is used, the pass is reported inconsistent, so output is produced only from a pass in which every fixed symbol kept its value; within an IF condition undefined symbols read as zero.",
 ["inputs", "histories"], "all sequences of definitions and lookups over all passes, all names and value types",
 "Unit fixtures converge in one or two passes and never redefine or oscillate.",
 ["src/symbol.c", "src/node.c", "src/assemble.c"],
 [("symbol table", "src/symbol.c: symbol_set, symbol_force_set, symbol_get, symbol_try_get"), ("value comparison", "src/node.c: node_equal")],
 state=[{"name": "defining pass", "meaning": "pass in which the symbol was last defined", "where": "struct symbol.pass"}],
 observe=["exit status", "error list", "bytes of the output file"])

prop("C13", "Local label references resolve to the nearest occurrence",
 "A backward reference to a numeric local label yields the value of its last occurrence at or before the referring line in the current section, and a forward reference the value of its first occurrence strictly after it; with no such occurrence the pass is reported inconsistent. This holds for any number of occurrences defined in any order, and a value that differs from the previous pass is reported inconsistent.",
 ["inputs", "histories"], "all label numbers, all sets of occurrences, all reference lines",
 "The fixtures have a couple of local labels; nearest-match over many occurrences depends on the balanced-tree search order.",
 ["src/symbol.c", "gnulib/gl_anyavltree_list2.h"],
 [("nearest search", "src/symbol.c: symbol_local_backref, symbol_local_fwdref, symbol_local_set and comparison callbacks")],
 observe=["bytes of the output file"])

prop("C14", "Failure is always reported and never yields a success status",
 "Every error raised while assembling is remembered with the highest severity seen; passes repeat only while the pass was merely inconsistent and at most the allowed number of times, and the exit status is zero exactly when the final pass had nothing worse than warnings and every requested output file was written completely. When assembly itself fails no output, listing, export or symbol file is written.",
 ["inputs", "fault_sequences", "configurations"], "all sequences of diagnostics in all passes, all pass limits, all open/write failures of output files",
 "Tests only run successful assemblies with writable outputs.",
 ["src/error.c", "src/asm6809.c", "src/output.c"],
 [("severity tracking", "src/error.c: verror, error_clear_all, error_print_list"), ("pass loop and exit", "src/asm6809.c: main")],
 state=[{"name": "error level", "meaning": "highest severity of the pass", "where": "error_level"}],
 observe=["exit status", "files written", "stderr"])

prop("C15", "Data directives emit exactly the documented bytes",
 "For any argument list FCB/FCC, FCN, FCS, FCV, FCI, FDB, FQB, RZB/FZB/ZMB/BSZ, FILL, RMB and ALIGN emit or reserve exactly the documented bytes: values truncated to their width and big-endian, strings byte for byte (zero-terminated, last byte flagged, or VDG-translated as documented), fills of exactly the requested count and value, alignment to exactly the next multiple. Missing, surplus or wrongly typed arguments and negative counts are reported as errors.",
 ["inputs"], "all argument lists of any length, all integers and strings of any length, all counts and alignments, all program counters",
 "The fixtures use data directives only incidentally; every value, string length and count must be right.",
 ["src/assemble.c"],
 [("data directives", "src/assemble.c: pseudo_fcb .. pseudo_align, emit_formatted, ascii_to_vdg, verify_num_args, have_int_optional, have_int_required")],
 observe=["bytes of the output file", "exit status"], hook="loop invariants on argument and count loops")

prop("C16", "Exactly the selected branch of a conditional is assembled",
 "For any properly nested IF/ELSIF/ELSE/ENDIF structure, the lines assembled are exactly those of the first branch whose condition is non-zero at every nesting level (the ELSE branch if none), and everything in unselected branches has no effect on code, symbols or nesting apart from conditional directives themselves. Unbalanced directives, and a repeated ELSE or an ELSIF after ELSE outside unselected branches, are reported as errors.",
 ["inputs", "programs"], "all nestings and condition values",
 "One fixture has a few conditionals; correctness depends on the state at every nesting depth and branch history.",
 ["src/assemble.c"],
 [("condition stack", "src/assemble.c: assemble_prog")],
 observe=["bytes of the output file", "exit status"])

prop("C17", "Sections keep their position across switches and follow one another",
 "Selecting a section for the first time in a pass starts it empty at the end address (program counter and load address) recorded for the section that was current, with the initial direct page; selecting it again in the same pass resumes it exactly where it was. A pass ends consistent only if every section ended at the same program counter and load address as recorded from the previous pass.",
 ["inputs", "histories"], "all sequences of section switches over all passes, all section names and addresses",
 "The section fixture switches between two sections once.",
 ["src/section.c", "src/assemble.c"],
 [("section selection", "src/section.c: section_set, section_finish_pass, verify_section")],
 state=[{"name": "last addresses", "meaning": "end addresses of the previous pass", "where": "struct section.last_pc, last_put"}],
 observe=["bytes of the output file", "exit status"])

prop("C18", "Macro arguments and nesting behave as a stack with a depth limit",
 "Inside a macro expansion the n-th positional variable yields the n-th argument of the innermost expansion, and after the expansion ends those of the enclosing one are back; referring to a variable that does not exist is an error. Expansions and inclusions nest at most to the documented depth, beyond which assembly fails with an error instead of crashing.",
 ["inputs", "programs"], "all expansion nestings, argument lists and indices",
 "No fixture nests or recurses macros.",
 ["src/interp.c", "src/assemble.c", "src/program.c"],
 [("argument stack", "src/interp.c: interp_push, interp_pop, interp_get"), ("depth limit", "src/assemble.c: assemble_prog")],
 observe=["bytes of the output file", "exit status"])

prop("C19", "Shared expression values are never freed early, leaked into or altered",
 "A parsed or evaluated value stays valid and unchanged as long as anything still refers to it and its storage is released exactly once when the last reference goes, so that macro bodies, symbol values and arguments evaluated in one place or pass read the same everywhere else. Evaluation never changes the source expression it evaluates.",
 ["inputs", "histories"], "all value types, all reference counts, all sharing patterns",
 "Tests run each program once to completion without memory checking.",
 ["src/node.c", "src/eval.c", "src/program.c"],
 [("reference counting", "src/node.c: node_new*, node_ref, node_free, node_set_attr"), ("in-place casts", "src/eval.c: eval_int_free, eval_float_free")],
 state=[{"name": "reference count", "meaning": "number of holders", "where": "struct node.ref"}],
 observe=["memory safety of the process", "bytes of the output file"])

prop("C20", "Lists and dictionaries keep every element, in order, under every operation",
 "Each list operation (append, prepend, insert, remove, concatenate, reverse, copy, sort, find) yields exactly the sequence its name promises, sorting being an ordered permutation; a dictionary lookup returns the value most recently stored under an equal key and nothing for keys never stored or removed. Case-insensitive dictionaries treat names differing only in letter case as equal and hash them alike.",
 ["inputs", "histories"], "all lists, all keys, all operation histories",
 "The containers have no tests of their own.",
 ["dt101/slist.c", "dt101/dict.c", "dt101/hash-djb2.c"],
 [("lists", "dt101/slist.c"), ("dictionary", "dt101/dict.c, dt101/hash-djb2.c")],
 observe=["return values"])

prop("C21", "The listing shows each line's address and exactly the bytes it produced",
 "Every source line appears once, in order, with tabs expanded; a line that produced code or data shows its four-digit address and exactly the bytes it produced, and other lines show none.",
 ["inputs"], "all lines, addresses, byte counts, spans",
 "Fixture listings are not compared by the reliable tests.",
 ["src/listing.c", "src/assemble.c"],
 [("listing", "src/listing.c: listing_add_line, listing_print")],
 observe=["listing file"])

prop("C22", "Exported symbols and macros read back as what they were",
 "The symbols and exports files are source text which, when included in another assembly, defines the same symbols with the same values and macros that expand to the same code.",
 ["inputs"], "all symbol values and macro bodies",
 "No test produces an exports or symbols file.",
 ["src/program.c", "src/node.c"],
 [("printers", "src/program.c: prog_print_exports, prog_print_symbols; src/node.c: node_print")],
 observe=["exports and symbols files"])

prop("C23", "Command-line options have exactly their documented effect",
 "Each option sets what the manual says and nothing else, whatever the order of options: output format, ISA, pass limit between 2 and 255, initial direct page from the value given, symbol definitions with decimal, hexadecimal ($ or 0x), octal (@) and binary (% or 0b) values, execution address by number or symbol.",
 ["configurations", "inputs"], "all option combinations and argument strings",
 "Tests use a handful of options with one value each.",
 ["src/asm6809.c"],
 [("option handling", "src/asm6809.c: main, simple_parse_int, define_symbol")],
 observe=["exit status", "files written"])

prop("C24", "Source text is read as the documented fields, constants and precedence",
 "Every line of source is split into label, instruction and arguments as documented, numeric and character constants in every documented notation have their documented value, and expressions group by the documented operator precedence, left to right.",
 ["inputs"], "all source text",
 "Tests cover a tiny sample of notations and no operator mixtures.",
 ["src/lex.l", "src/grammar.y"],
 [("scanner and parser", "src/lex.l, src/grammar.y")],
 observe=["bytes of the output file"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
