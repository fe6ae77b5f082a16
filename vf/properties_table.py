L = "libipt/src/"

prop("C01", "Packet decoding follows the trace format and stays in the buffer",
     "For every byte sequence, every buffer length and every read position, the packet decoder either delivers exactly the packet type, size and payload that the Intel PT format defines for the bytes at that position, and advances by exactly that size, or it reports the documented error and does not move. It never reads outside the trace buffer, and truncated packets are reported as end of stream.",
     ["inputs", "configurations"],
     "all packet bytes, all truncations, every processor-erratum setting, and every user packet structure size",
     "unit tests decode a few hand-written payloads per packet type; the format has 2^(8*16) inputs per position and every truncation of them",
     [L + "pt_packet.c", L + "pt_packet_decoder.c", "libipt/internal/include/pt_opcodes.h"],
     [("opcode dispatch and payload decoding", L + "pt_packet_decoder.c"),
      ("payload readers with bounds checks", L + "pt_packet.c")],
     state=[("read position", "next packet to decode", "struct pt_packet_decoder")],
     observe=["pt_pkt_next"],
     note="Postconditions of the packet reader against an independent restatement of the format, for every byte string of up to 16 bytes (no packet is longer) at every truncation, and from far inside a longer buffer; memory safety and frame conditions are discharged with it. Unknown-packet callbacks are not configured.")

prop("C02", "Packet encoding writes the trace format and round-trips",
     "Encoding any packet at any position writes exactly the bytes the Intel PT format defines for it, advances by exactly that size, and writes nothing else; if the packet does not fit or cannot be represented, an error is returned and neither the buffer nor the position changes. Decoding the bytes that were written yields the packet that was encoded.",
     ["inputs"],
     "every packet type with every payload value, every remaining space, every position",
     "the round-trip tests use a few payload values per packet; they cannot cover all payloads nor every shortage of space",
     [L + "pt_encoder.c", L + "pt_packet.c", L + "pt_packet_decoder.c"],
     [("per-packet encoders", L + "pt_encoder.c")],
     observe=["pt_enc_next", "pt_pkt_next"],
     note="One obligation set per packet type; payloads, remaining space and position are arbitrary. The round trip composes the real encoder with the real decoder for all payloads the format can represent.")

prop("C03", "Positions and offsets refer to the trace buffer",
     "Setting the position of a packet decoder or an encoder succeeds exactly for offsets within the trace buffer and then continues at that offset; reporting a position or synchronization offset gives the distance from the beginning of the buffer and changes nothing. Asking before synchronizing is an error and delivers nothing.",
     ["inputs", "histories"],
     "every buffer size, every offset, every decoder position",
     "tests use one fixed small buffer and a handful of offsets",
     [L + "pt_packet_decoder.c", L + "pt_encoder.c"],
     [("bounds checks in sync-set and offset functions", L + "pt_packet_decoder.c")],
     observe=["pt_pkt_sync_set", "pt_pkt_get_offset", "pt_pkt_get_sync_offset", "pt_enc_sync_set", "pt_enc_get_offset"],
     note="Postconditions over arbitrary buffers, positions and offsets (offsets below 2^52: the verifier's pointers have 54 offset bits).")

prop("C04", "Synchronization finds the next, previous, or given PSB",
     "Synchronizing forward or backward moves to the nearest PSB packet after or before the current position, at any alignment and also for back-to-back PSB packets, and reports the end of the stream if there is none; repeated synchronization makes progress and terminates. A failed synchronization does not move the decoder, and the search never looks outside of the trace buffer.",
     ["inputs", "histories"],
     "all trace contents around PSB packets, all alignments of buffer, packet and starting point",
     "tests place one or two PSB at a few chosen offsets; alignment, overlap and run length of the pattern multiply",
     [L + "pt_sync.c", L + "pt_packet_decoder.c"],
     [("word-wise pattern search", L + "pt_sync.c"), ("search start and progress", L + "pt_packet_decoder.c")],
     observe=["pt_pkt_sync_forward", "pt_pkt_sync_backward"],
     level="other",
     note="The search itself is checked for all contents of buffers of up to 32 bytes at every alignment (bounded: a stated bound, not a proof for longer traces); validation of a PSB, the aligned-address helpers and the decoder-level wrappers are proved for all inputs against the contract of the search.")

prop("C05", "Compressed IP payloads reconstruct the full instruction pointer",
     "Given the last instruction pointer, every IP payload reconstructs the full 64-bit address according to its compression mode (16, 32 or 48 low bits replaced, 48 bits sign-extended, or all 64 bits), and that becomes the base of the next update. A suppressed IP is reported as suppressed and keeps the base, reserved modes are errors that change nothing, and no IP is reported before the first update or after a reset.",
     ["inputs", "histories"],
     "every previous state, every compression mode, every payload",
     "tests use a few payloads per mode from a few states",
     [L + "pt_last_ip.c"],
     [("IP update by compression mode", L + "pt_last_ip.c")],
     observe=["pt_last_ip_update_ip", "pt_last_ip_query"],
     note="Proved for all states, modes and payloads; frame condition enforced by a code contract.")

prop("C06", "Conditional-branch indicators are consumed in order, none lost",
     "Branch indicators are delivered one by one in the order in which they were added, each exactly once and with its original taken or not-taken value, across any number of packets. Adding more than fit is reported as an overflow and loses none of those already there; asking for one when there is none is an error.",
     ["inputs", "histories"],
     "every cache content of up to 64 indicators and every payload to be added",
     "tests add one or two small payloads",
     [L + "pt_tnt_cache.c"],
     [("shift register with index bit", L + "pt_tnt_cache.c")],
     observe=["pt_tnt_cache_add", "pt_tnt_cache_query"],
     note="Proved for every content and payload of up to 63 indicators (packets carry at most 47).")

prop("C07", "The return stack is a LIFO of the most recent 64 return addresses",
     "Return addresses are popped in the reverse order of being pushed, each at most once and unmodified. If more than 64 are pushed, exactly the oldest are lost; popping from an empty stack is an error that changes nothing.",
     ["inputs", "histories"],
     "every stack depth, rotation and content",
     "tests push and pop a few sequences from an empty stack",
     [L + "pt_retstack.c"],
     [("ring buffer", L + "pt_retstack.c")],
     observe=["pt_retstack_push", "pt_retstack_pop"],
     note="Inductive step proved from every valid ring state, contents and rotation arbitrary; the representation invariant is re-established.")

prop("C08", "Timing: time estimate and calibration follow the packet rules",
     "From every timing state, each TSC, TMA, MTC, CYC and CBR packet updates the estimated time, the core:bus ratio, the loss counters and the cycle calibration exactly as the timing rules define, including counter wrap-around, cycles spanning several counter periods, and losses. Errors are reported as documented and no packet leads to a division by zero.",
     ["inputs", "histories", "configurations"],
     "every timing state, packet payload, and configuration with an MTC frequency of 0..15",
     "tests check a few packet sequences with a few frequencies",
     [L + "pt_time.c"],
     [("time updates", L + "pt_time.c"), ("calibration", L + "pt_time.c")],
     observe=["pt_time_update_*", "pt_tcal_*"],
     note="Proved for all states and payloads, one case per MTC frequency. Multiplication, division and remainder are uninterpreted functions (sound: the code and the rules apply them to the same operands), so their machine semantics do not matter to the argument.",
     technique="contract-based deductive verification of the real C source: per-function obligations generated by cbmc, discharged by z3 (nonlinear arithmetic uninterpreted) and SAT")

prop("C09", "Address spaces match by identity or wildcard, at any structure size",
     "Two address-space identifiers match exactly if both their page-table base and their VM control structure are equal or unspecified on either side. User structures of any size are accepted: fields beyond the user's size are unspecified, fields we do not know are ignored, and no byte beyond the given size is read or written.",
     ["inputs", "configurations"],
     "all identifier values and all user structure sizes from 0 to 40 bytes",
     "tests compare a few values and three sizes",
     [L + "pt_asid.c", "libipt/internal/include/pt_asid.h"],
     [("match and size conversion", L + "pt_asid.c")],
     observe=["pt_asid_match", "pt_asid_from_user", "pt_asid_to_user"],
     note="Proved for all values; user sizes 0..40 enumerated (the structure has 24 bytes).")

prop("C10", "Pending events are kept in order per binding and never overwritten",
     "Pending events leave the queue in the order in which they were added among those that bind to the same packet, each exactly once and unmodified, while all others keep their order. A full queue refuses further events instead of dropping any, and the event that was delivered last stays valid when the next one is added.",
     ["inputs", "histories"],
     "every queue rotation, fill level, binding and event",
     "tests fill and drain the queue from its initial state with uniform bindings",
     [L + "pt_event_queue.c"],
     [("ring buffer with bindings", L + "pt_event_queue.c")],
     observe=["pt_evq_enqueue", "pt_evq_dequeue", "pt_evq_peek", "pt_evq_find"],
     note="Inductive step from every queue state (rotation and fill level enumerated completely, bindings and events arbitrary); for more than 4 pending events, dequeue is checked for one pair of binding masks at quick and for all masks at thorough. The event is abstracted to its type and one payload word: the queue copies events as a whole.")

prop("C11", "The memory image maps the newest section and keeps the rest intact",
     "After any sequence of adding, removing, and copying sections, reading an address in an address space gives the bytes of the section that was added last among those covering it in a matching address space, at the right offset; sections that are partly covered keep the content of their remaining parts. Reads never go beyond the mapped part of a section and fall back to the memory callback. A failed operation changes nothing, and no reference to a section is lost or leaked.",
     ["inputs", "histories", "faults"],
     "every arrangement of sections in every combination of address spaces, every address, failing allocations",
     "tests arrange two or three sections at fixed addresses and read a few of them",
     [L + "pt_image.c", "libipt/internal/include/pt_mapped_section.h"],
     [("overlap handling, lookup, copy", L + "pt_image.c")],
     observe=["pt_image_add_file", "pt_image_add_cached", "pt_image_copy", "pt_image_remove_by_filename", "pt_image_remove_by_asid", "pt_image_read"],
     level="other",
     note="Inductive step from every image of up to 2 sections (3 for lookups and removal) with arbitrary addresses, sizes, offsets, address spaces, and identifiers that satisfies the invariant (no overlap in matching address spaces), one operation, any allocation failing. Longer lists are not covered, so it is bounded. Section address ranges are assumed not to wrap.")

prop("C12", "Sections: mapping and lifetime are reference counted under every interleaving",
     "A section lives as long as it has users and stays mapped as long as it has mappers, whatever other threads do with it; the last user frees it and the last mapper unmaps it, exactly once. Counters never overflow, locks are always released and taken in one order, and all shared state changes under its lock only. Mapping fails if the file has changed. Reading gives the file's bytes at that offset and never reaches beyond the section.",
     ["schedules", "inputs", "faults"],
     "every counter value, every interference by other threads at every lock acquisition, every failing system call, all offsets and sizes",
     "tests run a few threads for a few iterations and read a small file",
     [L + "pt_section.c", L + "pt_section_file.c", L + "posix/pt_section_posix.c", L + "pt_block_cache.c"],
     [("reference counts and locks", L + "pt_section.c"), ("mapping", L + "posix/pt_section_posix.c")],
     observe=["pt_section_get", "pt_section_put", "pt_section_map", "pt_section_unmap", "pt_section_read", "pt_mk_section"],
     note="Lock invariants: whatever a lock protects takes any value that other threads may leave behind when it is taken, and the invariant is an obligation when it is released. System calls and mutexes are replaced by stubs which may fail. Proved for all counters, offsets and sizes; file names are 7 characters, block caches have up to 5 entries.")

prop("C13", "The image section cache: stable identifiers, sharing, and a bounded memory use",
     "Adding a part of a file at an address gives a positive identifier that stays valid until the cache is cleared; adding the same again gives the same identifier, and the same part of a file at another address shares the section. Looking up or reading an identifier gives exactly what was added. The memory used by cached mappings is accounted for and stays within the limit, evicting the least recently used ones; all references, attaches, and mappings are released exactly once, also if something fails or other threads add sections in between.",
     ["histories", "schedules", "faults"],
     "all contents, identifiers, addresses, sizes and limits; another thread adding at any lock acquisition; every failing call",
     "tests use small caches with fixed sizes and addresses, and threads for a few iterations",
     [L + "pt_image_section_cache.c"],
     [("add, lookup, lru", L + "pt_image_section_cache.c")],
     observe=["pt_iscache_add_file", "pt_iscache_read", "pt_iscache_set_limit", "pt_iscache_lookup"],
     level="other",
     note="Inductive step from every cache of up to 3 entries (2 when adding) and 3 mapped sections satisfying the invariant. Larger caches are not covered, so it is bounded. One other thread adds at most one entry during an operation.")

prop("C17", "Configuration: structure sizes, errata, address filters, processor strings",
     "A user's configuration of any structure size is understood without touching a byte beyond that size: fields the user's version lacks get their documented defaults, and fields it has keep their value. The set of enabled errata is exactly the documented one for the processor model. An address is filtered in or out exactly as the configured address ranges say. A processor string is parsed to family, model and stepping or rejected with -pte_invalid.",
     ["inputs", "configurations"],
     "all structure sizes at and around every field, all processors, all filter settings and addresses",
     "tests use three structure sizes, a few processors and two filter configurations",
     [L + "pt_config.c", L + "pt_cpu.c"],
     [("size conversion and filters", L + "pt_config.c"), ("errata and parsing", L + "pt_cpu.c")],
     observe=["pt_config_from_user", "pt_cpu_errata", "pt_filter_addr_check", "pt_cpu_parse"],
     note="Processor strings are bounded to 8 characters (strtol assumed to return any value for some prefix); everything else is proved.")

prop("C14", "Instruction length and branch classification follow the architecture",
     "For every byte sequence and every execution mode, decoding one instruction either reports the length the architecture defines for it, never more than the bytes that were given, or -pte_bad_insn. Every instruction that can change control flow, and nothing else, is classified as such, with the right kind (call, return, jump, conditional jump, and their far forms), and with the exact displacement if it is a direct branch. Nothing outside the instruction is read.",
     ["inputs", "configurations"],
     "every sequence of up to 15 bytes with any number of prefixes, in 16, 32 and 64 bit mode, and every truncation",
     "a wrong length desynchronizes the whole reconstruction; tests decode a few hundred of 2^120 byte sequences",
     [L + "pt_ild.c"],
     [("prefixes, opcode maps, modrm/sib/displacement/immediates, classification", L + "pt_ild.c")],
     observe=["pt_ild_decode"],
     note="Contract of pt_ild_decode against an independent restatement of the opcode maps and the instruction format (contracts/spec_x86.h); undefined encodings may have any length. Any number of prefixes by an inductive step that is proved from every prefix state; the induction itself is on paper.")

prop("C15", "Following single instructions through memory",
     "An instruction is assembled from memory bytes in order, also if it crosses from one image section into another (and only then is it marked truncated); it carries the section identifier of its first byte, and missing memory is reported instead of decoding bytes that are not there. Which instructions are branches, change the privilege level or page tables, or bind to a PIP, VMCS, IRET, VM-entry or UIRET event is exactly what the architecture says. Only instructions whose successor does not depend on trace have one, at the architecturally defined address.",
     ["inputs", "configurations"],
     "all splits of an instruction over sections, all errors, all instruction classes, addresses, and displacements",
     "tests split a few instructions over two sections; classification is tested for some classes only",
     [L + "pt_insn.c"],
     [("read, retry, classify, follow", L + "pt_insn.c")],
     observe=["pt_insn_decode", "pt_insn_next_ip", "pt_insn_range_is_contiguous"],
     note="Contracts over stubs that follow the contracts of pt_image_read and pt_ild_decode. The walk between two addresses is bounded to six instructions; everything else is proved.")

prop("C16", "Events: which packets bind together, and what they mean",
     "For every trace and every state, the next event is exactly the one the packets define: each packet is bound to the FUP, TIP, TIP.PGE, TIP.PGD, or PSBEND the format assigns to it (also across the errata workarounds), events come in the documented order, and each carries the type, IP, suppression, PIP/VMCS/mode/payload fields, time, and loss counts of its packets. A combination that the format does not define is rejected, and never turned into an event. Synchronizing starts from a PSB with nothing left over from before; status flags announce a pending event exactly if there is one.",
     ["inputs", "histories", "configurations"],
     "every payload, decoder state, time, and error of a packet, in combination with the pending events and the following packets given below",
     "tests feed a few hundred hand-written packet sequences with fixed payloads; binding rules depend on what is pending and on errata lookahead over the following packets",
     [L + "pt_event_decoder.c"],
     [("binding and emitting events", L + "pt_event_decoder.c")],
     observe=["pt_evt_next", "pt_evt_sync_forward", "pt_evt_sync_backward",
              "pt_evt_sync_set"],
     level="other",
     note="One step of the decoder from a state with up to 3 pending events, over a script of up to 4 packets: kinds of packets and pending events are enumerated (some 1500 combinations), payloads and state are arbitrary. Bounded since there may be more pending events and longer lookaheads. The packet decoder, the event queue, and timing are replaced by their contracts.")

prop("C18", "Queries consume the trace exactly, in order, and once",
     "From any state of the query decoder, a conditional branch query yields the next taken/not-taken indicator of the trace, an indirect branch query the next destination, and an event query the next event; nothing is skipped, duplicated, or taken from beyond something that comes first, and a query of the wrong kind fails without consuming anything. The reported time and frequency are those of the last event that was used. Status flags announce a pending event, a suppressed IP, and the end of the trace exactly when they apply; an error that lies behind still valid data is reported only when it is reached. All three ways to synchronize report the start address and status of the PSB+, with nothing left over from before.",
     ["inputs", "histories"],
     "every decoder state (cached indicators, deferred errors, pending event) and every following sequence of events, times, and errors, as far as one call can look ahead",
     "tests query a few scripted traces; the interplay of cached indicators, look-ahead, deferred errors, and time has far more states",
     [L + "pt_query_decoder.c", L + "pt_tnt_cache.c"],
     [("queries", L + "pt_query_decoder.c")],
     observe=["pt_qry_cond_branch", "pt_qry_indirect_branch", "pt_qry_event",
              "pt_qry_sync_forward", "pt_qry_sync_backward",
              "pt_qry_sync_set", "pt_qry_time"],
     note="Contract of each query against a script of events standing for the event decoder (C16). Queries look ahead by at most one event, which is asserted; synchronizing is bounded to PSB+ of two events and four synchronization points.")

prop("C19", "Execution flow follows instructions and trace exactly",
     "From any state of the instruction flow decoder, the next instruction is the one at the current IP, decoded in the current mode and address space, and the next IP is the one that the architecture and the trace define: calls and returns, conditional and indirect branches use exactly the trace they need and nothing else does; compressed returns go to the matching call. An event is indicated at the instruction or IP it belongs to, at most one of each kind per instruction, before decoding goes on, and its effect (enable, disable, paging, mode, speculation, overflow, VMCS, counting to a trigger, ticks) applies from there on; events that contradict the current state are reported as errors. Memory of another address space is never used. All of this also holds under the errata workarounds; the user's structures are filled to the given size and not beyond.",
     ["inputs", "histories", "configurations"],
     "every decoder state, instruction, pending or following event, trace query result, and error, one call at a time",
     "tests run a few dozen short programs; the combinations of state, instruction, and event that decide where to go next are not enumerated",
     [L + "pt_insn_decoder.c", L + "pt_insn.c"],
     [("one step of the flow", L + "pt_insn_decoder.c")],
     observe=["pt_insn_next", "pt_insn_event", "pt_insn_sync_forward",
              "pt_insn_sync_backward", "pt_insn_sync_set",
              "pt_insn_set_image", "pt_insn_asid"],
     note="One call from an arbitrary state refines one step of an independent specification (spec_flow.h); by induction over calls this covers every history. The query decoder, the return stack, the image, and instruction decode are replaced by their contracts.")
