#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

BS='cmdis/bitstring.py'; HE='cmdis/helpers.py'; DE='cmdis/decoder.py'; IN='cmdis/instructions.py'
FO='cmdis/formatter.py'; MO='cmdis/model.py'; MC='cmdis/mock_cpu.py'; UT='cmdis/utilities.py'
DI='cmdis/disasm.py'; RE='cmdis/registers.py'; MA='cmdis/__main__.py'

p('C01','Bit string arithmetic is modular and leaves its operands alone',
  'Adding, subtracting, multiplying or floor-dividing a bit string by a bit string, an integer or a binary-text operand gives a new bit string holding the exact integer result reduced modulo 2^width, at the left operand\'s width; an integer on the left counts as a 32-bit value, or 64-bit when it does not fit in 32 bits. The plain operators change neither operand; the in-place operators change only the left operand, to the same result. Dividing by zero raises ZeroDivisionError.',
  ['inputs'],'all values at each operand width, every operator, operand kind and in-place/reflected variant',
  'The tests evaluate a few constants of 3-4 bits; wrap-around, mixed widths, reflected forms and accidental mutation of an operand need all values.',
  [BS],[('operators on top of in-place forms','bitstring.__add__/__iadd__ ... __rfloordiv__')],['operator results, operand values and widths afterwards'])
p('C02','Bitwise operators, shifts and inversion act bit by bit',
  'The numeric value of the AND, OR or XOR of two bit strings is that operation on their values, also when widths differ; with an integer or binary-text operand the result is additionally truncated to the bit string\'s width. Shifting moves every bit by the given amount, fills with zeros and drops what leaves the width, and bitwise inversion flips exactly the bits within the width. None of these operators changes its operands, the in-place operators agree with the plain ones, and only the explicit in-place inversion method changes its receiver.',
  ['inputs'],'all values at each width pair and every shift amount up to past the width',
  'Tests use one or two constants per operator and never look at the operands afterwards.',
  [BS],[('masking to width','bitstring.__and__/__or__/__xor__/__lshift__/__rshift__/__invert__/invert/inverted')],['operator results, operand values afterwards'])
p('C03','Signed, unsigned and extended views agree and are read-only',
  'For any bit string of two or more bits the signed view is its two\'s-complement value and the unsigned view its non-negative value. Sign extension preserves the signed value and zero extension the unsigned value at the requested larger-or-equal width, a narrower width is rejected with ValueError, and the extension is an independent value: changing it later does not change the original. Reading any view never changes the bit string, so reading twice gives the same answer.',
  ['inputs'],'all values at each width and target width',
  'Tests extend two constants; a view that mutates its receiver is invisible to a test that reads once.',
  [BS],[('signed/unsigned/sign_extend/zero_extend','bitstring.signed, unsigned, sign_extend, zero_extend')],['views, extension results, receiver afterwards'])
p('C04','Bit and slice access touches exactly the addressed bits',
  'Reading a bit or a slice of a bit string yields exactly those bits in order, with negative indices counting from the top and negative-step slices reversed; bit 0 is the least significant. Assigning a bit or a slice changes exactly those bits (a wider value is truncated to the slice) and leaves every other bit and the width unchanged. Concatenation puts the left operand above the right one with the sum of the widths, so slicing the result gives both operands back, and in-place concatenation agrees.',
  ['inputs'],'all values, all indices and slice bounds within each width',
  'Tests read or write a handful of positions of one 5-bit constant.',
  [BS],[('getitem/setitem/concat','bitstring.__getitem__, __setitem__, get_bit, __mod__, __imod__, __iter__')],['indexing results and full value afterwards'])
p('C05','Bit string conversions lose nothing',
  'Building a bit string from an integer and width keeps the low width bits; without a width an integer gets 32 bits when it fits and 64 otherwise. Binary text, bit lists, little-endian byte arrays and other bit strings convert to the width and value they spell, an empty sequence or text gives the empty bit string, and copies are independent. The binary-text, little-endian-bytes and based-literal renderings of a bit string denote exactly its value and convert back to it.',
  ['inputs'],'all values at each width, every construction source and rendering',
  'Tests convert single constants; boundary integers (2^32), byte arrays and empty sequences are never constructed.',
  [BS],[('constructor type dispatch and renderings','bitstring.__init__, bytes, binary_string, base_string, value/width setters')],['constructed value/width, rendered text/bytes'])
p('C06','Equality, ordering and hashing of bit strings are coherent',
  'Two bit strings are equal exactly when width and value agree, equal bit strings have equal hashes, and inequality is always the negation of equality, also against foreign types. The order over bit strings is total and consistent (value first, then width), with <, <=, > and >= agreeing with each other. Against integers a bit string compares as its unsigned value, or as its signed value when the integer is negative; against binary text it compares as that bit string.',
  ['inputs'],'all pairs and triples of values at each width combination; all integers in a range wider than the width',
  'Tests compare constants with == and != only; no ordering or hash is tested at all.',
  [BS],[('rich comparisons','bitstring.__eq__ ... __ge__, __hash__')],['comparison results, hash agreement'])
p('C07','Bit queries describe the actual bits',
  'The bit count, the lowest and highest set-bit positions (with width and -1 when no bit is set), the all-zeros and all-ones tests and their one-bit forms, and truthiness (true exactly when some bit is set) all describe the actual bits of any bit string. Iterating yields the bits from least to most significant. Reversal mirrors the bit order, is its own inverse, and only the in-place form changes the receiver.',
  ['inputs'],'all values at each width',
  'Truthiness is never tested directly although instruction simulation depends on it; the rest is a few constants.',
  [BS],[('bit queries','bitstring.bit_count, lowest_set_bit, highest_set_bit, is_zero, is_ones, __bool__, __iter__, reversed, reverse')],['query results'])

p('C08','Add-with-carry matches the architecture',
  'For any two operands of equal width and any carry-in, the add-with-carry primitive returns the sum modulo 2^width, carry-out exactly when the unsigned sum does not fit and overflow exactly when the signed sum does not fit. It changes none of its arguments.',
  ['inputs'],'all operand pairs and carries at widths 2..32 (quick: a subset of widths)',
  'Seven constant cases, none with overflow or carry-out.',
  [HE,BS],[('AddWithCarry','helpers.AddWithCarry')],['returned triple, arguments afterwards'])
p('C09','Shift and rotate primitives match the architecture',
  'Logical left and right, arithmetic right, rotate right and rotate-with-extend produce the result and carry-out the ARM architecture defines for every operand and every amount, including zero where defined, amounts equal to and beyond the width. The general shift passes value and carry through unchanged for amount zero, and the result-only forms agree with the carry forms. No primitive changes its arguments.',
  ['inputs'],'all operands at the checked widths, all amounts 0..255 for 32-bit operands',
  'Tests shift 4- or 7-bit constants by 1 or 4; register-controlled amounts of 32 and more are untested.',
  [HE,BS],[('shift primitives','helpers.LSL_C ... Shift')],['returned result and carry'])
p('C10','Immediate expansion, shift-amount decoding and alignment are exact',
  'A 12-bit modified immediate expands to the 32-bit constant and carry the architecture defines; a shift type with a 5-bit amount decodes to the architectural shift kind and amount (0 meaning 32, or rotate-with-extend). Aligning an integer or bit string to a power of two clears exactly the low bits and keeps a bit string\'s width.',
  ['inputs'],'all 4096 modified immediates with both carries, all 128 shift fields, all values for alignment',
  'Modified-immediate expansion has an empty test; alignment has a few constants.',
  [HE],[('expansion','helpers.ThumbExpandImm_C, ThumbExpandImm, DecodeImmShift, Align')],['returned constant, carry, kind, amount'])

p('C11','Decoding is total, deterministic and history-free',
  'Decoding any 16-bit or 32-bit word either yields an instruction or raises the undefined-instruction or unpredictable error, and nothing else; data too short for its instruction is reported as undefined. A word is 32-bit exactly when its first halfword starts with 11101, 11110 or 11111; the resulting instruction reports that size, the given address (zero when none is given) and exactly the encoded bytes. The outcome does not depend on anything decoded, executed or formatted before.',
  ['inputs','histories'],'all 2^16 halfwords, all 3*2^27 32-bit words, all addresses; every ordered pair of 16-bit decodes and of 32-bit encodings',
  'Tests decode hand-picked valid words; no test decodes an undefined word, nor decodes twice.',
  [DE,IN],[('decoder tree walk','DecoderTree.decode/_build_tree'),('field handlers','handlers in instructions.py')],['decode outcome, size, bytes, address'])
p('C12','16-bit instructions decode to the right operation and operands',
  'Every supported 16-bit Thumb encoding decodes and prints as its architectural mnemonic with the register, immediate, shift, addressing and register-list operands its fields encode. Every halfword outside the supported encodings is reported as undefined and never decoded as some other instruction.',
  ['inputs'],'all field values of every supported 16-bit encoding, all remaining halfwords',
  'Tests check one to a few words per encoding and mostly only print the text.',
  [IN,DE,FO],[('encoding patterns and handlers','@instr table in instructions.py')],['formatted instruction text'])
p('C13','32-bit instructions decode to the right operation and operands',
  'Every supported 32-bit Thumb-2 encoding decodes and prints as its architectural mnemonic with the register, immediate, shift, addressing and register-list operands its fields encode, or raises the unpredictable error where its operand restrictions are violated. Every 32-bit word outside the supported encodings is reported as undefined and never decoded as some other instruction.',
  ['inputs'],'all field values of every supported 32-bit encoding, all remaining words',
  'One to a few words per encoding out of up to 2^25 each.',
  [IN,DE,FO],[('encoding patterns and handlers','@instr table in instructions.py')],['formatted instruction text'])
p('C14','The most specific encoding pattern wins, with exact fields',
  'An encoding pattern written in the pattern notation (fixed bits, one-bit and sized fields, fixed-value fields, blanks between elements and around sizes) matches exactly the words that agree with all its fixed bits, and passes each named field the bits at its place. For any set of patterns, a word decodes with the matching pattern that fixes the most bits (registration order among ties), moving to the next when a handler declines, and is undefined when none matches.',
  ['programs','inputs'],'all pattern sets within the stated size and all words',
  'Pattern parsing is tested on 15 strings without looking at matching; decoder selection is never tested on its own.',
  [DE],[('pattern parser and tree','decoder.parse_spec, Decoder, DecoderTree')],['which handler runs, field values'])
p('C15','Disassembly walks a buffer without gaps or overlaps',
  'Disassembling a buffer yields instructions whose addresses start at the given address (zero when none is given) and advance by each instruction\'s size, and whose bytes concatenated are exactly the buffer\'s prefix. It stops silently only at the end or when fewer than four undecodable bytes remain, and otherwise raises the undefined (or unpredictable) error at the first word that does not decode. Each yielded instruction equals what decoding that position alone gives.',
  ['inputs','histories'],'all buffers up to the stated length over the stated byte classes, any start address',
  'Buffer disassembly has no test at all.',
  [DI,DE],[('stream loop','Disassembler.disasm')],['yielded instructions'])

p('C16','Additions, subtractions and comparisons compute architectural results and flags',
  'Executing any supported add, add-with-carry, subtract, subtract-with-carry, reverse-subtract, compare or compare-negative instruction writes the architectural result to its destination (comparisons write none) and sets N, Z, C and V as the architecture defines when it sets flags. The PC advances by the instruction size, and no other register, flag or memory byte changes. (Operands other than the PC.)',
  ['inputs'],'all operand fields, register contents and flags',
  'A few constants per instruction and only the result register is looked at; flags are almost never checked.',
  [IN,HE,BS,MO],[('AddSub, ReverseSubtract, Compare','instructions.py')],['register and flag state after execute'])
p('C17','Logic, move, shift and test instructions compute architectural results and flags',
  'Executing any supported and, or, exclusive-or, bit-clear, move, move-not, shift, rotate or test instruction writes the architectural result, sets N and Z from it and C from the shifter (or from the expanded modified immediate) when it sets flags, and never changes V. The PC advances by the instruction size unless the PC is the destination, which then receives the moved address with its lowest bit cleared; no other register, flag or memory byte changes. (Source operands other than the PC.)',
  ['inputs'],'all operand fields, register contents, flags and shift amounts',
  'A few constants per instruction; carry-out and flag preservation are not looked at.',
  [IN,HE,BS,MO],[('BitOp, BitClear, ShiftOp, Move, ShiftedMoveNegate, Test','instructions.py')],['register and flag state after execute'])
p('C18','Extend, byte-reverse, multiply and address instructions are exact',
  'Executing any supported sign/zero-extend (with its rotation), byte-reverse, multiply or address-to-register instruction writes the architectural 32-bit result to its destination, with multiply setting only N and Z when it sets flags. The PC advances by the instruction size, and no other register, flag or memory byte changes.',
  ['inputs'],'all operand fields and register contents, all PC values',
  'One or two constants per instruction.',
  [IN,HE,BS,MO],[('Extend, ByteReverse, Multiply, AddressToRegister','instructions.py')],['register state after execute'])
p('C19','Branches go to the right place under the right condition',
  'A conditional branch is taken exactly when its architectural condition over N, Z, C and V holds and otherwise falls through by its size; a taken branch sets the PC to the branch address plus 4 plus the sign-extended offset, modulo 2^32. Register branches go to the register\'s address with the Thumb bit cleared, using the register\'s value from before the instruction, and linking branches set LR to the following instruction\'s address with the Thumb bit set. No other register, flag or memory byte changes.',
  ['inputs'],'all conditions, offsets, flag states, addresses and registers (other than PC as branch register)',
  'Two of fourteen conditions are tested, with one offset each.',
  [IN,MO],[('Branch','instructions.Branch, CONDITIONS')],['PC, LR and the rest of the state after execute'])
p('C20','Single loads and stores use the right address, size and extension',
  'A load or store accesses exactly the architectural address (base plus or minus the offset or shifted index; word-aligned PC plus 4 for literals) with exactly its size; loads put the zero- or sign-extended value in the destination, stores write only the low bytes of the source. Nothing else changes except the PC, which advances by the instruction size, or takes the loaded value when the PC is the destination.',
  ['inputs'],'all fields, register contents and memory contents',
  'A few addresses and values per instruction; untouched memory and registers are not looked at.',
  [IN,MO,BS],[('Load, Store, LoadLiteral','instructions.py')],['registers and all of memory after execute'])
p('C21','Block transfers move exactly the listed registers in order',
  'Push, pop, load-multiple and store-multiple transfer exactly the registers in their list, lowest-numbered at the lowest address, over consecutive words starting at the architectural address. The stack pointer or written-back base changes by exactly four times the number of listed registers (a loaded base keeps the loaded value), a listed PC is loaded and otherwise the PC advances by the instruction size. No other register, flag or memory byte changes.',
  ['inputs'],'all register lists, base registers, register contents and memory contents',
  'One or two lists per instruction out of up to 2^14, and untouched state is not looked at.',
  [IN,MO,BS],[('Push, Pop, LoadMultiple, StoreMultiple','instructions.py')],['registers and all of memory after execute'])
p('C22','System and hint instructions touch only what they name',
  'Changing processor state sets or clears exactly the named interrupt masks. Moving from a special register puts the architectural view of that register into the destination (masked stack pointers and priority masks when unprivileged, execution state reading as zero) and changes nothing else. Hints, barriers, breakpoint, supervisor call and permanently-undefined instructions change nothing but the PC, and all of these advance the PC by their size.',
  ['inputs'],'all special registers, destinations, register contents and privilege states',
  'Moves from special registers are decoded but never executed by the tests; hints are executed without checking anything.',
  [IN,MO],[('ChangeProcessorState, MoveFromSpecial, Instruction','instructions.py')],['complete state after execute'])
p('C23','Executing or printing an instruction never changes it',
  'Executing a decoded instruction any number of times on equal states has equal effects, and its printed text, size, address and bytes are the same before and after execution. Executing a list of instructions on a CPU has the effect of executing them one by one in order, and different CPUs do not influence each other.',
  ['inputs','histories'],'all encodings and states, histories of up to the stated number of executions',
  'Every test executes an instruction once.',
  [IN,DE,BS,MO],[('instruction objects holding operand values','Instruction subclasses')],['state after each execution, text before and after'])

p('C24','CPU registers read back what was written, under every alias',
  'Writing a core register by name (in any letter case), index, property or register-set item and reading it through any other of these gives the written value modulo 2^32, as a 32-bit bit string; other registers keep their values. Stack pointers are word-aligned, interrupt masks keep one bit and the base priority eight; the active stack pointer (main or process, as the control register selects) and the SP are always the same value. The register dump of the model prints these values. Indices outside a register set are rejected with KeyError.',
  ['inputs','histories'],'all registers, values and write sequences up to the stated length',
  'Tests write small values to general registers and read them back through one path.',
  [MO,MC,RE],[('register access','CpuModel.read_register/write_register, RegistersInterface, MockCpuModelDelegate.write_register')],['register reads'])
p('C25','Condition flags are independent bits of the status register',
  'Setting one condition flag to zero or one, given as an integer, truth value or one-bit bit string, changes exactly that flag\'s bit of the program status register: N, Z, C and V are bits 31 to 28. Reading a flag gives that bit and changes nothing; privilege and exception-number views reflect the control and status register bits.',
  ['inputs'],'all status register values, all flags and flag values',
  'Flags are set from a zeroed register and read back individually.',
  [MO],[('flag accessors','ApsrAlias, CpuModel.ipsr, is_privileged')],['status register value'])
p('C26','Simulated memory is byte-addressed little-endian storage',
  'In mapped memory every 8-, 16- or 32-bit (32 when no size is named) or block read returns exactly the little-endian combination of the bytes most recently written at those addresses, initially zero. A write changes exactly the addressed bytes, truncating the value to the access size, and an access that is not entirely inside one mapped region reads as zero or is ignored, without error and without disturbing any region. Block accesses are clipped at the region\'s end.',
  ['inputs','histories'],'all addresses, values and sizes over two regions, sequences of writes up to the stated length',
  'Tests access aligned words well inside one region.',
  [MC,MO,UT],[('memory model','MockCpuModelDelegate.read_memory/write_memory/..block, CpuModel.read_memory/write_memory')],['memory reads'])

p('C27','Every decodable instruction can be printed, as a pure function',
  'Formatting any decodable instruction succeeds, starts with the encoding in hexadecimal halfwords followed by the mnemonic and comma-separated operands, and gives the same text each time and with a reused or a fresh formatter, without changing the instruction or the CPU. Immediates above nine and labels add their hexadecimal value as a trailing comment, zero offsets marked as hidden are omitted.',
  ['inputs','histories'],'all encodings and addresses; sequences of two formats',
  'Tests print formatted text without comparing it to anything.',
  [FO],[('Formatter and operands','formatter.py')],['returned text'])
p('C28','Printed branch and label targets are where execution goes',
  'The absolute address printed for a branch or address-to-register instruction is exactly the address the PC or destination register receives when that instruction executes (taken) at the same location, modulo 2^32. The printed relative offset is the signed distance from the instruction\'s address to that same target.',
  ['inputs'],'all label-carrying encodings, offsets and even instruction addresses',
  'Label text is printed but never compared with execution.',
  [FO,IN],[('LabelOperand vs Branch/AddressToRegister','formatter.LabelOperand, instructions.Branch')],['text and PC after execute'])
p('C29','Bit-field and byte-order utilities are exact inverses',
  'Extracting a bit field returns exactly the bits between its limits (also when the lower limit is bit 0, or omitted for a single bit), and inserting changes exactly those bits, so extract after insert returns the field. Byte, halfword and word conversions are little-endian and invert each other; masks, population counts, 32-bit inversion and float conversions are exact.',
  ['inputs'],'all values and bit limits up to 32 bits, all byte lists up to the stated length',
  'The utilities have no test of their own.',
  [UT],[('utilities','utilities.py')],['returned values'])

p('C30','The simulator console dumps and stores memory faithfully',
  'The console\'s 8-, 16- and 32-bit read commands print, for a mapped range, each little-endian value in hexadecimal next to the address it starts at, covering exactly the requested bytes; its write commands store exactly the given values at the given address with that element size and touch nothing else.',
  ['inputs'],'all memory contents, start addresses and values within the stated lengths',
  'The console module is not imported by any test.',
  [MA,MO,UT],[('do_read, do_write, dumpHexData','__main__.py')],['printed text, memory after the command'])
p('C31','A console step executes exactly the instruction at the PC',
  'The step command prints and executes exactly the one instruction located at the PC (ignoring its lowest bit), with the same effect as decoding and executing it directly, whatever follows it in memory. Disassembly commands print each instruction at its address, mark the one at the PC, and change no state.',
  ['inputs'],'all instruction words at the PC and following bytes in the stated classes, register states',
  'The console module is not imported by any test.',
  [MA,DI,MO],[('handle_step, print_disasm','__main__.py')],['printed text, state after the command'])
p('C32','Console values, registers and reset do what they say',
  'A console argument denotes a number in its written base, a register\'s current value, or for a bracketed form the little-endian word stored at that value plus offset. Writing a register through the console stores that value and leaves the other registers alone (stack pointers aside, which mirror each other); reg and the register names print the current value. Reset loads PC and SP from the vector table when they point into memory and leaves them otherwise; starting without a file gives zeroed memory, and with one, memory that starts with its contents.',
  ['inputs'],'all register contents and memory contents, the stated argument forms',
  'The console module is not imported by any test.',
  [MA,MO],[('convert_value, handle_write_reg, reset_sim, create_sim','__main__.py')],['returned value, register state'])
p('C33','Console lines run exactly their commands, and mistakes change nothing',
  'A console line of commands separated by semicolons has the output and effect of entering each on its own (empty ones do nothing), an empty line repeats the whole previous line, and every alias, in either case, acts as its command. An unknown command, register or argument is reported, changes no register or memory, and does not keep later commands from running; only exit (or the end of input) ends the session.',
  ['inputs','histories'],'all values, registers and memory, sequences of commands of the stated kinds',
  'The console module is not imported by any test.',
  [MA],[('SimConsole.run, process_command_line, process_command, SimTool.command_list','__main__.py')],['printed text, registers and memory after the session'])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
