R = "runtime monitoring: "
T["C01"] = (R + 'offline checker comparing observed object files with an independent reference assembler', 'random well-formed programs plus the full grid of PC-relative label offsets')
T["C02"] = (R + 'offline checker of observed accept/reject decisions against an independently computed set of violated rules', 'random programs and programs with injected violations of every rule, boundary offsets included')
T["C03"] = (R + 'offline checker comparing the observed statement list with the model the text was rendered from', 'random statement lists rendered in random layouts, spellings and letter cases')
T["C04"] = (R + 'crash, panic and span monitor over hostile inputs, in separate optimised and unoptimised processes', 'token soups, damaged programs, all 5-character strings over a hostile alphabet, huge tokens')
T["C05"] = (R + 'offline checker of observed token values against independent big-integer arithmetic', 'exhaustive values and spellings around every limit, random long digit strings')
T["C06"] = (R + 'exhaustive observation of decode/encode over all 65536 words and every constructible instruction', 'complete over words; instruction fields complete')
T["C07"] = (R + 'exhaustive observation of disassembly and reassembly of all 65536 words against an independent classifier', 'complete over single words, random images for multi-word listings')
T["C08"] = (R + 'lockstep monitor against a reference LC-3 machine over registers, memory, devices and I/O logs', 'random and hostile machine states, all flags, devices with interrupts, full-memory diffs')
T["C09"] = (R + 'access monitor over observed user-mode steps: memory, registers and device logs', 'random hostile user-mode states with devices; every effect outside user space is an alarm')
T["C15"] = (R + 'offline checker of initialization masks of observed results against the exact set of bits that depend on uninitialized operand bits', 'random data and masks under every operator and the ADD, AND and NOT instructions')
T["C23"] = (R + "offline checker of symbol-table queries against the model's labels", 'random programs, every label in random spellings')
T["C24"] = (R + 'offline checker of line/address maps against the rendered layout', 'random programs in random layouts, all lines and all addresses')
T["C25"] = (R + 'offline checker of source positions against naive recomputation', 'exhaustive short texts over newline alphabets, random long texts, all indices')
T["C26"] = (R + 'monitor of the spans of observed assembler and linker errors', 'programs with injected errors in every public assembling entry point, conflicting link pairs')
T["C27"] = (R + "lockstep monitor of the frame stack against the reference machine's call log", 'random states with many calls, traps, interrupts, exceptions and signatures')
T["C28"] = (R + "lockstep monitor of the access observer against the reference machine's access log", 'random states, steps and runs, host reads in between')
T["C35"] = (R + 'exhaustive observation of every bounded offset width against integer ranges', 'complete over widths and 16-bit values')
T["C36"] = (R + 'offline checker reparsing printed statements and comparing with the originals', 'random and exhaustive statements of every kind')
T["C10"] = (R + 'step monitor of the interrupt gate, winner, entry and return, plus comparison of every final state with the uninterrupted run', 'generated programs interrupted by scheduled devices, external interrupts, timers and the keyboard; nested and competing requests')
T["C11"] = (R + 'contract monitor around every observed trap call: output, consumed input, registers, PSR and all of user memory', 'random strings, registers and input under real and virtual traps, late input, devices that are not ready, every byte')
T["C12"] = (R + 'paired runs with real and virtual traps compared on outcome, registers, memory and output', 'generated terminating programs with halts, faults and I/O')
T["C13"] = (R + 'twin monitor: each run-style call is replayed by single steps and its documented stop conditions', 'random histories of run, step, breakpoint, limit and MCR operations on programs and hostile states')
T["C14"] = (R + 'paired lockstep monitor of identical machines with and without strict mode, plus fully initialized strict machines', 'random states and programs, loaded images with reserved areas, uninitialized registers; every strict error kind observed')
T["C16"] = (R + 'panic, hang and overflow monitor over hostile machine states, querying the faulting address after every call', 'random full-memory images, flags, devices, mappings; every word at the edges of memory in every mode')
T["C17"] = (R + 'offline checker: every observed object file written in the binary format, read back and compared field by field', 'random programs, link results, hostile source text, every character, degenerate and giant sources')
T["C18"] = (R + 'offline checker: every observed object file written in the text format, read back and compared field by field', 'random programs, link results, hostile source text, every character, degenerate and giant sources')
T["C20"] = (R + 'offline checker of every link in every order and bracketing against a reference linker', 'random sets of 2-4 files with shared, conflicting and external labels and touching or overlapping blocks')
T["C19"] = (R + 'panic, round-trip and usability monitor over hostile object files', 'damaged, forged and random object files in both formats, read, rewritten, linked and loaded')
T["C21"] = (R + 'offline checker of load results, linked images and machine memory against the model', 'generated files with .external before, between and after uses, with and without debug symbols, alone and linked in every order')
T["C22"] = (R + 'offline checker of debug queries on linked files against the original texts', 'sets of 2-10 files with debug symbols in random layouts, linked in every order and grouping')
T["C29"] = (R + 'offline checker of every memory word, register and the PC before and after observed loads', 'random object files loaded into new, arbitrary and used machines of every initialization strategy')
T["C30"] = (R + 'paired monitor: a reset machine compared with a new one in every observable, then run side by side; configuration probed through every I/O address', 'random histories of execution, edits, flags, breakpoints, devices and mappings before the reset')
T["C31"] = (R + 'paired-run monitor: two independently built machines compared after every step and in all of memory', 'random programs, seeds, timers, keyboards and devices; known initialization exhaustive over values')
T["C32"] = (R + 'monitor of every call that reaches a recording device, of register values and of I/O words against a port-table model', 'all short operation sequences over a small alphabet and random histories with sweeps of the whole I/O page')
T["C33"] = (R + 'exactly-once, in-order checker over bytes read and displayed while an adversary holds the buffer locks', 'all lock patterns over windows of steps of short echo programs, random and targeted patterns, real threads')
T["C34"] = (R + 'online monitor of the polls between timer interrupts, directly and at handler entries inside the simulator', 'all small counts and ranges in every notation, random histories of toggles, resets and range changes, twin timers')
