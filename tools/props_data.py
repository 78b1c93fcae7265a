prop("C13", "The 1442 card reader punch does every command exactly once, at any pace",
 "For every sequence of commands, and however late, early or busy the channel is, the 1442 follows the channel interface (one in line at a time, good parity, each signal answered before the next, disconnects when told), reads exactly the columns of the next card in EBCDIC or card image form, punches exactly the bytes sent into the card at the punch station and nothing else, moves each card once from hopper to read station to punch station to the selected stacker, and reports channel end, device end, unit check, busy and sense exactly as the state of the cards and of the transfer requires. "
 "A stacked status is offered again until taken, HALT I/O ends a command with its ending status and the unit works afterwards, a busy unit refuses commands without disturbing the one it runs, and a byte not served within its column time is reported as overrun.",
 ["inputs", "histories", "schedules"], "All command sequences over card states and byte counts, with all answers of the channel (stop, stack, halt, late) at every event, on multiplexer and selector channels.",
 "The tests run a few commands on one channel with a channel that always answers at once and never stacks, halts or stops early, and no test compares a punched card.",
 ["src/model1442/model1442.c", "src/device/card.c", "src/device/device.h"],
 [("channel interface state machine", "src/model1442/model1442.c:model1442_dev"), ("card movement and column timing", "src/model1442/model1442.c:read_callback, feed_callback, punch"), ("commands and status", "src/model1442/model1442.c:device_cmd, device_stop, device_halt")],
 "Stateless exploration of the real device driven by a reference channel (harness/dchan.h) that watches the lines at every step, against a reference model of the cards. Eight defects found were repaired.",
 observe=["channel lines at every step", "bytes read", "cards in stackers and stations", "statuses and sense"])
prop("C14", "The 1443 printer puts every line where the carriage control says, once",
 "For every sequence of print and carriage commands from every line of the form, each line of text appears exactly once, complete and in the right form and line of the output file, overprinting when there is no spacing, and the carriage stops exactly at the commanded space or at the next hole of the skip channel, over the end of the form if needed. "
 "However late, stacking, halting, resetting or busy the channel is, the printer follows the channel interface, takes exactly the bytes of the line, gives channel end and device end once each, unit exception for channel 12, unit check with the right sense byte, busy to commands while it works, offers a stacked status until taken, and works normally afterwards.",
 ["inputs", "histories", "schedules"], "All commands from all lines of the form over three carriage tapes, all bytes and lengths, and all channel behaviours at every event.",
 "The tests address a printer that is not ready; they never print a line, move the carriage or use the interface beyond one rejected command.",
 ["src/model1443/model1443.c", "src/device/device.c", "src/device/xlat.c"],
 [("line and carriage", "src/model1443/model1443.c:print_line"), ("channel interface state machine", "src/model1443/model1443.c:model1443_dev")],
 "Stateless exploration of the real device driven by the reference channel of harness/dchan.h; the output file is interpreted as paper and compared with a reference carriage. Six defects found were repaired. A printer that is not ready answers every command with unit check, which the tests ask for.",
 observe=["output file as forms, lines and columns", "statuses and sense", "channel lines at every step"])
prop("C15", "Configuration lines mean what they say and put devices where they say",
 "Every configuration line is read as documented: device word with optional model letter, -number and /number, hexadecimal address, options name or name=value separated by blanks or commas in any letter case, quoted values kept exactly (a doubled quote stands for one), numbers and choices checked, '#' starting a comment. Nothing of one line reaches another; unknown devices are skipped; a missing address or a refused option refuses the configuration; "
 "no line, however long or malformed, hangs the reader or makes it touch memory outside of its fields. Afterwards each channel holds exactly the configured devices and tape units, in order, at their addresses with their options, and can be searched by address and mask; a removed device, and only that, is gone; every disk controller present is stepped exactly once per step. Log level words set exactly their masks.",
 ["inputs", "histories"], "All lines over a small alphabet of tokens, all field lengths, all files of a few lines, all sequences of list operations.",
 "The tests load one or two fixed well-formed lines.",
 ["src/conf.c", "src/device/device.c", "src/logger.c", "src/model1443/model1443.c", "src/model2415/model2415.c"],
 [("line reader", "src/conf.c:get_model,get_addr,get_option,get_string,get_integer,get_index"), ("file reader", "src/conf.c:load_config,load_line"), ("device and disk lists", "src/device/device.c:add_chan,find_chan,del_chan,add_disk,del_disk,step_disk"), ("unit creation", "src/model2415/model2415.c:model2415_create")],
 "Exhaustive enumeration of lines, files and operation sequences on the real reader and lists, compared with an independent reference reader, under address sanitizer. Open: words over 19 characters, unterminated quotes and characters outside of the documented syntax only have to be read safely. Six defects found were repaired.",
 observe=["calls of the create functions with their fields", "device and disk lists", "log_level"])
prop("C16", "A deck in the reader loads and runs: IPL and whole programs end to end",
 "Pressing the load key reads the program in the selected reader exactly as the initial program load convention says: system reset, 24 bytes from the unit to storage 0, the channel program there carried out with chaining, the unit's address stored, and the processor started with the PSW at 0; whatever state the machine was in before (running, waiting, units at work or interruptions pending) and whatever "
 "load attempt failed before. A load that cannot be completed leaves the machine stopped in load state and can be tried again. A loaded program that copies cards to the printer, by polling or by interruptions, at any speed relative to the units, prints every card once, in order and unchanged, and punches them where asked.",
 ["inputs", "schedules", "histories"], "All combinations of deck, state before, failures before, PSW and channel; all delays between program and units.",
 "The tests never start a program from a device: processor, channels, 1442 and 1443 are only tested each for itself.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c", "src/model1442/model1442.c", "src/model1443/model1443.c", "src/device/card.c"],
 [("load", "src/model2050/cpu2050.c:cycle_2050 (LOAD), src/model2030/cpu2030.c:cycle_2030 (load)"), ("reset of channels", "cycle_2050, cycle_2030"), ("units", "src/model1442/model1442.c:model1442_dev, src/model1443/model1443.c:model1443_dev")],
 "Both machines with real reader/punch and printer run complete programs; every choice of the stated sets is explored and storage, PSW, forms, hopper and stacker are compared with a direct reading of the deck. A load ending with incorrect length is left open.",
 observe=["storage and PSW at the start of the loaded program", "lines printed", "cards punched and left"])
prop("C17", "Every configured storage size works completely, and there is nothing behind it",
 "On every model that can be configured (2030 with 8K to 64K, 2050 with 64K to 512K) each byte below the size is a storage location of its own, reachable by every instruction as operand or as instruction and by every channel as data or channel program, and each 2K block has a protection key of its own that is set, inserted and enforced independently of all others. "
 "A reference at or beyond the size, however the address is formed (24 bit arithmetic, high order byte ignored), is an addressing exception that changes no other storage, key, register or state of the machine; an operand that only begins within storage is one too.",
 ["inputs"], "All instructions at all addresses next to a power of two and to the end of storage, for all eight models; all blocks for the keys.",
 "Tests use one storage size and addresses below 64K; whether address 256K is a location of its own, or a key set behind the end of storage overwrites something, depends on the configured model.",
 ["src/model2030/cpu2030.c", "src/model2030/model2030.c", "src/model2050/cpu2050.c"],
 [("2030 storage wrap", "src/model2030/cpu2030.c:cycle_2030 (mem_wrap_req, mem_prot, mem_max)"), ("2050 storage cycles and keys", "src/model2050/cpu2050.c:cycle_2050 (SAR_REG, SA, MP, IVA), model2050_create")],
 "Stateless exploration of the real processors: one execution per model, instruction, address and way to form it, compared with the reference interpreter and reference channel with the same storage size. Known 2030 findings: CAW behind storage, byte after a protection check.",
 observe=["registers, all of storage, all keys, old PSWs, CSWs"])
NOTES = ("Every check is a bounded exhaustive exploration of the real C code of /repo/src, linked with lib/mc.c (a small stateless "
 "model checker, parallel depth first enumeration of all choices) and a reference model in harness/<id>*.c. No hooks in /repo are needed.")
NA = {}

prop("C01", "Timed events fire exactly once at exactly their time, cancels are exact",
 "An event added with delay d fires exactly once, on the d-th following clock step (a delay of zero fires at once), with the device and arguments it was added with. "
 "Cancelling removes exactly the next pending event of that device and callback and no other, whether done between steps or from inside a firing callback. "
 "Callbacks may add and cancel events freely without losing, duplicating, delaying or advancing any other event.",
 ["schedules", "histories"], "All sequences of add, cancel and clock steps over several devices, callbacks and delays, and all choices of what a callback does while it fires.",
 "The unit tests add a handful of fixed delays; cancels of middle elements, ties, and list changes from within callbacks are sequence dependent and are not sampled.",
 ["src/event.c", "src/event.h"], [("relative delta list of events", "src/event.c:add_event"), ("cancel adds delay of removed event to next", "src/event.c:cancel_event"), ("firing", "src/event.c:advance")],
 "Every sequence of operations up to the stated depth is executed on the real event list and compared, step by step, with an absolute time reference. Order among events due at the same step is not part of the property. Assumes the small scope (few devices, delays) is representative.",
 observe=["step number, device and arguments of each callback"])
prop("C02", "Cards are conserved and kept in order by hopper and stacker",
 "Reading from the hopper returns exactly the cards loaded into it, in order, each once, no matter how loads of decks and blank cards are interleaved with reads, and the number of cards shown always equals the number still to come. "
 "Every card put in the stacker is written exactly once, in order, to the deck file in use, and failed loads or saves lose nothing and damage nothing.",
 ["histories", "fault_sequences"], "All sequences of load, add blank, read, empty, stack, save, close operations, including thousand card decks that make the deck storage grow, and missing files.",
 "Tests load one deck and read it; growth of storage, compaction, mixing of loads, and failing saves only show for particular operation sequences.",
 ["src/device/card.c", "src/device/card.h"], [("hopper storage and growth", "src/device/card.c:read_deck, blank_deck, read_card"), ("stacker", "src/device/card.c:stack_card, save_deck, close_deck, empty_cards")],
 "Every operation sequence to the stated depth on the real card code, with address sanitizer, against a queue of serial numbered cards.",
 observe=["read_card, hopper_size, stack_size, deck files"])
prop("C03", "Card images survive every deck file format",
 "A deck written in any card format and loaded again gives the same cards: every punch combination for binary and octal formats, and every printable character and its case, as encoded by the character set, for text formats. "
 "Loading never reads or writes outside of the deck storage, never loops, and an input file of any length and line structure gives exactly the cards it describes.",
 ["inputs"], "All punch codes in all columns, all byte values in text, all pairs of card kinds, line lengths around 80, all character sets and formats.",
 "The tests use a few sample lines per format; the content space (4096 codes by column by format, line ends, card boundaries in the read buffer) is not sampled.",
 ["src/device/card.c"], [("format detection and parsing", "src/device/card.c:parse_card"), ("conversion to file", "src/device/card.c:save_card"), ("character tables", "src/device/card.c:ascii_to_hol*, hol_to_ebcdic")],
 "Exhaustive enumeration of the stated alphabets through the real writer and parser against independently written encoders/decoders; the known limits of lossy text formats are excluded by construction.")
prop("C04", "A tape image behaves as a reel of tape",
 "Whatever sequence of writes, tape marks, forward and backward reads (complete or partial), rewinds and re-mounts is done, reading forward returns the records and marks in the order written, reading backward returns them reversed byte for byte, and load point, end of tape and write protection are reported exactly when they apply. "
 "Every operation ends, and on dismount the file holds exactly the same records in the chosen file format.",
 ["histories", "inputs"], "All operation sequences over short and buffer sized records, all three file formats, new, existing and protected tapes.",
 "The tests write and read one fixed pattern per format; positions relative to the 32K buffer, direction changes, overwriting and end of tape depend on the history.",
 ["src/device/tape.c", "src/device/tape.h"], [("file buffer", "src/device/tape.c:tape_read_byte, tape_readbk_byte, tape_write_byte"), ("record framing", "src/device/tape.c:tape_read_forw, tape_read_back, tape_write_start, tape_finish_rec"), ("position", "src/device/tape.c:tape_start_rewind, tape_rewind_frames")],
 "Every sequence to the stated depth runs on the real tape code with real files and is compared with a list of records; the file is decoded by an independent reader at every dismount. Corrupt tape files and erase gap are not covered.",
 observe=["status codes, frames, load point, file contents"])

prop("C05", "Fixed point, logical, branch and move instructions follow the architecture",
 "Every fixed point, logical, shift, branching, load/store, move, translate and execute instruction of the 2030 and the 2050, started from any machine state, leaves exactly the registers, storage, condition code, instruction address and program interruption that the System/360 Principles of Operation define, and changes nothing else.",
 ["inputs"], "All operation codes of these classes, all register numbers, operand values, addresses, alignments, lengths, overlaps and program masks, on both processors.",
 "Tests run a handful of operand values per operation on one alignment; carries, overflow borders, register overlap, operand overlap, alignment dependent microcode paths and EXECUTE modification are combinations.",
 ["src/model2050/cpu2050.c", "src/model2050/ros.txt", "src/model2030/cpu2030.c", "src/model2030/ccros2030.txt"], [("2050 microcycle", "src/model2050/cpu2050.c:cycle_2050"), ("2030 microcycle", "src/model2030/cpu2030.c:cycle_2030"), ("microcode", "src/model2050/ros.txt, src/model2030/ccros2030.txt")],
 "Every case of the enumerated product is loaded into the real simulated processor, the real microcode is run until the wait state, and the complete state is compared with an independent interpreter of the architecture.",
 observe=["general registers, storage, storage keys, old PSWs"])
prop("C06", "Decimal and editing instructions follow the architecture",
 "Every decimal arithmetic, pack, unpack, edit and conversion instruction of both processors gives exactly the result field, condition code and data, overflow or divide exception that the System/360 Principles of Operation define for all operand lengths, signs, digits and overlaps, in EBCDIC and in ASCII mode.",
 ["inputs"], "All operand lengths, alignments, signs, boundary digit strings, invalid digits and signs in every position, overlapping operands, and edit patterns.",
 "Tests use few lengths and well formed operands; invalid digits, overlapping fields and pattern combinations are a product space.",
 ["src/model2050/cpu2050.c", "src/model2050/ros.txt", "src/model2030/cpu2030.c", "src/model2030/ccros2030.txt"], [("2050 decimal adder and edit", "src/model2050/cpu2050.c:cycle_2050"), ("2030 decimal adder", "src/model2030/cpu2030.c:cycle_2030")],
 "As C05: exhaustive product of the stated operand tables on the real microcode against the reference interpreter. One 2050 finding is recorded in known-findings.txt.",
 observe=["storage, condition code, program old PSW"])
prop("C07", "Floating point instructions of the 2050 follow the architecture",
 "Every hexadecimal floating point instruction of the 2050, short and long, normalized and unnormalized, gives exactly the sign, characteristic, fraction, condition code and exponent overflow, underflow, significance and divide exceptions that the System/360 Principles of Operation define, and leaves other registers alone.",
 ["inputs"], "All operand signs, characteristics (and differences), boundary fractions, low words, register and storage forms and program masks.",
 "The tests compare random doubles with a tolerance and a few fixed operands; sign of cancelled results, guard digit, recomplementation and exponent wrap are rare combinations.",
 ["src/model2050/cpu2050.c", "src/model2050/ros.txt"], [("floating point stats", "src/model2050/cpu2050.c:S47,ED*FP"), ("microcode QG", "src/model2050/ros.txt")],
 "As C05: exhaustive product of the stated operand tables on the real microcode against the reference interpreter.",
 observe=["floating point registers, storage, condition code, program old PSW"])
prop("C08", "Protection, addressing and program interruptions are exact on both processors",
 "On both processors an instruction that is unassigned, privileged in problem state, refers to missing or protected storage, is not aligned or is otherwise invalid causes exactly the program interruption the architecture defines, with the right old PSW, and changes nothing it must not change. "
 "Key 0 may store anywhere; a store with another key into a block of a different key never changes storage, storage keys or registers. LPSW, SSM, SPM, SVC, SSK and ISK set and store exactly the fields they name.",
 ["inputs"], "All 256 operation codes, operand addresses around block and storage ends, all keys, all PSW field values, on both processors.",
 "Tests check a few exceptions at one address; the trap timing of the microcode depends on instruction, byte position, key and alignment.",
 ["src/model2050/cpu2050.c", "src/model2030/cpu2030.c", "src/model2050/ros.txt", "src/model2030/ccros2030.txt"],
 [("2030 storage cycle, protection and wrap traps", "src/model2030/cpu2030.c:cycle_2030, stg_prot_req, mem_wrap_req"), ("2050 storage checks", "src/model2050/cpu2050.c:cycle_2050")],
 "As C05: the enumerated product runs on the real microcode against the reference interpreter; where several exceptions apply, any of them is accepted.",
 observe=["old PSWs with code and length, storage, keys, registers"])

prop("C09", "Interruptions and timer updates fall between instructions, exactly once",
 "Whenever an external signal or a timer tick arrives, at any microcycle of any instruction or in the wait state, the running program is not disturbed: an enabled interruption is taken at the next instruction boundaries with an old PSW that is exactly the PSW of that boundary, once per signal, a disabled one stays pending until the first boundary that enables it, and after the handler returns the program ends with the same registers, storage and condition code as without it. "
 "A tick steps storage word 80 once and interrupts exactly when the word becomes negative.",
 ["schedules", "histories"], "All arrival times (every microcycle) over programs that cover all instruction formats, mask changes, supervisor calls, exceptions, loops and waiting, on both processors.",
 "The tests never signal an interruption or a tick while a program runs; whether microcode state survives one depends on the exact cycle.",
 ["src/model2050/cpu2050.c", "src/model2030/cpu2030.c", "src/model2050/ros.txt", "src/model2030/ccros2030.txt"],
 [("2030 interrupt request and timer", "src/model2030/cpu2030.c:cycle_2030, interrupt, timer_update, CK 0x1A"), ("2050 interrupt branch and timer", "src/model2050/cpu2050.c:timer_update, timer_irq, INTR, case 58")],
 "Stateless exploration of the real processors: one execution per arrival time (and per pair of times); the result must be equal to a state sequence computed by the reference interpreter. One 2030 finding (timer step of 7) is recorded in known-findings.txt.",
 observe=["external old PSW, handler count, registers, storage, timer word"])
prop("C10", "Operator controls stop, step, display and resume without disturbing the program",
 "STOP, pressed at any microcycle of any instruction or in the wait state, stops the processor between two instructions soon after; while it is stopped no register, no storage and no PSW field changes, whatever timer ticks or external signals arrive; START continues and the program ends exactly as if it had not been stopped, with a signal that arrived meanwhile taken once. "
 "Instruction step executes one instruction for each START, single cycle runs the same program one cycle per START, display shows and store changes only the addressed byte or word, SET IC only changes the instruction address, and SYSTEM RESET stops the machine in the reset state.",
 ["schedules", "histories"], "All microcycles at which STOP is pressed, over programs of all instruction formats, combined with signals while stopped and a second STOP.",
 "No test presses STOP, START or a display or store key while a program runs; whether instruction address and working storage survive depends on the exact cycle.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c", "src/model2030/ccros2030.txt", "src/model2050/ros.txt", "src/model2030/panel2030.c"],
 [("2030 stop and rate switch", "src/model2030/cpu2030.c:process_stop, proc_stop_loop_active, e_cy_stop_sample, RATE_SW"), ("2050 manual control", "src/model2050/cpu2050.c:allow_man_operation, stop_mode, OPPANEL")],
 "Stateless exploration of the real processors: one execution per press time and following choices; each state while stopped must be a state of the sequence computed by the reference interpreter. Five 2050 findings (step, single cycle, SET IC, store to local storage) are recorded in known-findings.txt.",
 observe=["registers, storage and PSW while stopped and at the end"])

prop("C11", "Channel programs move exactly the bytes and report exactly the status defined",
 "For every list of CCWs and every way a device can answer, START I/O on the byte multiplexer, a multiplexer burst device or a selector channel, on both processors, moves exactly the bytes the CCWs name between storage and device, in order, touching no other storage, and ends with exactly one interruption (or condition code 1) whose CSW has the right key, command address, count, unit status and channel status. "
 "Data chaining, command chaining, skip, suppress length, program controlled interruption, transfer in channel and protection do what the architecture defines; a bad CAW or CCW is a program check and never starts or continues an operation.",
 ["inputs", "histories"], "All CCW lists up to two (three) commands over flags, counts, commands and device lengths, and all cases of bad CAW, CCW, address, key and status.",
 "No test runs a channel program with chaining, skip or short records on the processors; results depend on the combination of flags, counts and device length.",
 ["src/model2050/cpu2050.c", "src/model2030/cpu2030.c", "src/model2050/ros.txt", "src/model2030/ccros2030.txt", "src/device/device.h"],
 [("2030 selector channels", "src/model2030/cpu2030.c:cycle_2030 (GR, GF, GG, selector share cycles)"), ("2050 selector channels", "src/model2050/cpu2050.c (SEL channel), ros RTA/RTB routines of the multiplexer")],
 "Stateless exploration: each execution builds one channel program and device script, runs the real processor and microcode from START I/O until everything is idle, and compares CSWs, storage, bytes sent and commands given with a reference channel (harness/refchan.h). Classes known to be wrong on this code (mostly the 2050 selector) are recorded exactly in known-findings.txt.",
 observe=["CSW and condition code of START I/O", "interruptions and their CSWs", "storage", "commands and bytes at the device"])
prop("C12", "Overlapped input/output disturbs neither the program nor other operations",
 "At every relative timing of device and processor, an operation in progress moves its bytes and reports its status exactly as when nothing else happens, and the instructions executed meanwhile give the same registers, storage and condition codes as without it; an interruption is taken once, with the CSW and device address of the operation that ended. "
 "Two operations on the same or different channels never mix their data, counts, addresses or interruptions. TEST I/O, TEST CHANNEL and a second START I/O never disturb the operation, and each status is reported exactly once, by the instruction or by an interruption; HALT I/O ends the operation after a prefix of its data, and the channel works normally afterwards.",
 ["schedules", "histories"], "All relative timings (microcycle by microcycle) between one or two devices and programs covering all instruction formats, on both processors and all kinds of channel.",
 "The tests run one device with an idle processor; a break-in of the channel between two particular microinstructions, or two channels active in the same cycle, is never reached by them.",
 ["src/model2050/cpu2050.c", "src/model2030/cpu2030.c", "src/model2050/ros.txt", "src/model2030/ccros2030.txt"],
 [("2050 break-in and channel state machines", "src/model2050/cpu2050.c:cycle_2050 (break_in, CHPOS, ROUTINE, polling), step_2050"), ("2030 share requests and selector routines", "src/model2030/cpu2030.c:cycle_2030 (sel_share_req, sel_ros_req, mpx_share_req, ch_sel)")],
 "Stateless exploration of the real processors: one execution per combination of program, channel, direction and time; final state must equal that of the reference interpreter without input/output, and device and storage must hold exactly the bytes transferred. One 2030 finding (HALT I/O in the cycles that take ending status) is recorded in known-findings.txt.",
 observe=["registers, storage, condition codes at the end", "CSWs and old PSWs of interruptions", "bytes at the devices"])
prop("C18", "A disk pack keeps count, key and data records exactly",
 "Whatever sequence of seeks, searches, format writes, updates, reads and remounts is run on a 2314 behind the 2844 control unit, reading a record gives exactly the count, key and data last written, and nothing else on the track, on neighbouring tracks or on other cylinders of the pack image changes; every cylinder and head of the pack can be reached and is distinct. "
 "SEARCH on ID and key (equal, high, equal or high) sets status modifier exactly for records for which the comparison holds, reads and writes apply to the record found, a seek to a cylinder or head that does not exist is refused, the file mask permits exactly the writes and seeks it names, and no command without such a cause ends with unit check. Writing fewer bytes than a record holds fills the rest with zeros.",
 ["inputs", "histories"], "All short histories of disk commands over positions on the track, cylinders and heads, field lengths, file masks and ways to leave and return to the track.",
 "The disk test runs a fixed list of commands on one track of one scratch pack; a position lost after a certain field length or a record disturbed by an update beside it shows only in combinations.",
 ["src/device/dasd.c", "src/device/dasd.h", "src/model2844/model2844.c", "src/model2844/model2844_ros.txt"],
 [("track model and image", "src/device/dasd.c:dasd_read_byte, dasd_write_byte, dasd_update, dasd_settags, dasd_format"), ("control unit and its microcode", "src/model2844/model2844.c:step_2844, model2844_dev")],
 "Stateless exploration of the real control unit, its microcode and the drive behind a simulated selector channel (harness/dchan.h): each execution starts from a fresh pack image, runs one chosen list of chained commands, and compares statuses, sense, bytes read and at the end the pack image with a reference track. The overruns of two-byte fields and short counts are recorded in known-findings.txt.",
 observe=["status, sense and data bytes of each command", "pack image file after the pack is taken off"])
