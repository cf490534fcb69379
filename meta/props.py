DEV = ['src/model1052/model1052.c', 'src/model1442/model1442.c', 'src/model1443/model1443.c', 'src/model2415/model2415.c', 'src/model2844/model2844.c']
STD = ['src/model1052/model1052.c', 'src/model1442/model1442.c', 'src/model2415/model2415.c']
BUSM = [('device bus functions', 'model*/model*.c: the function each device registers as bus_func (model1052_dev, model1442_dev, model1443_dev, model2415_dev, model2844_dev)'),
        ('tag and bus definitions', 'src/device/device.h CHAN_*_IN/OUT')]
TECH_BUS = 'abstract interpretation of the bus functions (LLVM IR, bit-level value numbering, typestate over reachable device configurations)'
NOTE_BUS = 'Whole-input, whole-history claim for the analysed device functions under the stated channel assumptions; nothing is executed or solved.'
WHY_BUS = 'The unit tests drive a handful of correct command sequences; the property ranges over every tag/bus combination in every reachable device state.'
ALLH = ['inputs', 'histories']

def B(i, title, st, files, quant, extra=(), **k):
    return dict(id=i, title=title, statement=st, over=ALLH, quant=quant, why=WHY_BUS, files=files, mech=BUSM + list(extra), technique=TECH_BUS, note=NOTE_BUS, observe=['inbound tags, bus-in and device state after each bus cycle'], **k)

PROPS = [
 B('B01', 'Every byte a device drives on bus-in has odd parity',
   'Whatever state a device is in and whatever the channel presents, any value the device newly places on the inbound bus carries odd parity over its eight data bits and the parity bit, and nothing above the parity bit.', DEV,
   'all device states, bus-out values and tag combinations'),
 B('B02', 'Devices never touch channel-owned tag lines',
   'A device never raises or drops a line that belongs to the channel; the only change it may make is to consume select out when it answers a selection.', DEV,
   'all device states, bus-out values and tag combinations'),
 B('B03', 'A device answers its own address and no other',
   'An unselected device ignores an address that is not its own: it raises nothing, leaves the bus alone and lets select out pass on (the disk control does the same for an address with bad parity). Its own address with good parity is answered when it is idle, for the unit addressed, and select out is kept from the devices behind it. Where one control unit serves several units only the control-unit part of the address is compared, and unit numbers it has no drive for are not its own.', DEV,
   'all addresses, parities, tag combinations and unselected device states'),
 B('B04', 'Address in always carries the device address',
   'Whenever a device has address in up, the inbound bus carries its address (its control-unit address with the unit number of the operation in progress).', DEV[:4],
   'all reachable device states and inputs'),
 B('B05', 'A device stays off the interface while another one operates',
   'While operational in is held up by some other device, the console typewriter, the card reader/punch and the tape control leave operational, address, status and service in alone, let select out pass and do not drive the inbound bus.', STD,
   'all reachable device states in which the device does not hold the interface, all inputs'),
 B('B06', 'At most one of address, status and service in; none when idle',
   'The console typewriter, the card reader/punch and the tape control never have more than one of address in, status in and service in up at once, and whenever they return to idle they have released operational, address, status and service in.', STD,
   'all reachable device states and inputs'),
 B('B07', 'System reset releases the interface and clears the device',
   'When operational out and suppress out are both down, the console typewriter, the card reader/punch, the tape control and the disk control drop operational, address, status and service in if they hold them, raise none, and return to their idle condition, whatever they were doing: selection and pending requests are cleared, and so are stacked status, status and the first sense byte (for the disk control, whose status lives in microcode registers, selection, request and the microcode address).', STD + DEV[4:],
   'reset arriving at any point of any operation'),
 B('B08', 'A command byte with bad parity is rejected and starts nothing',
   'A command byte with bad parity presented at initial selection ends in unit check with bus-out check in the first sense byte, and no operation is started.', DEV[:4],
   'all command bytes and reachable selected states'),
 B('B09', 'Inbound tags are held until answered and drop when answered',
   'In the console typewriter, the card reader/punch and the tape control an address, status or service in tag stays up until the channel answers it (or resets the interface), and status and service in drop in the same cycle in which the channel answers with command or service out.', STD,
   'all reachable device states and inputs'),
 B('B10', 'Refused status is stacked, accepted status is cleared',
   'In the console typewriter, the card reader/punch and the tape control, status that the channel refuses with command out is kept unchanged and remembered as stacked so it is presented again; status accepted with service out is cleared and never presented a second time.', STD,
   'all reachable status-presenting states and inputs'),
 B('B11', 'A busy device answers busy and starts nothing',
   'While their busy condition is set, the console typewriter and the card reader/punch answer selection with busy status instead of accepting it, and no command starts a second operation.', STD,
   'all reachable device states and inputs with the busy condition set'),
]

TECH_EFF = 'interprocedural effect analysis over the compiled source (LLVM IR): transitive may-write sets and control dependence'
def P(i, title, st, files, mech, quant, why, technique, note='', state='', observe=(), over=('inputs', 'histories'), **k):
    return dict(id=i, title=title, statement=st, over=list(over), quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=list(observe), **k)

PROPS += [
 P('Q01', 'Drawing the panels never changes the machine',
   'Refreshing the display only reads the simulated machine: no drawing callback of a device, CPU panel or widget, and nothing it calls, modifies CPU, storage, device, card, tape, disk or event state.',
   ['src/panel', 'src/model2030/model2030_panel.c', 'src/model2050/model2050_panel.c', 'src/model1442/model1442_draw.c'],
   [('drawing callbacks', 'functions stored in struct _device.draw_model and struct _widget_t.draw')], 'every drawing callback, all paths and all machine states',
   'The tests never draw; a single stray write would only show as an irreproducible run that depends on how often the screen refreshes.', TECH_EFF,
   'Over-approximates writes; alias classes are (structure type, field).', observe=['may-write set of each drawing callback']),
 P('Q02', 'Turning logging on or off never changes what the machine does',
   'Log settings only select what is written to the log: with any combination of log levels, CPU, channel, devices and file handling behave exactly the same.',
   ['src/logger.h', 'src/logger.c', 'src/model2030', 'src/model2050', 'src/device', 'src/model1442', 'src/model1443', 'src/model2415', 'src/model2844', 'src/model1052'],
   [('log macros', 'every branch on log_level (log_info, log_trace, log_device, ... in src/logger.h)')], 'every branch on the log level, all 2^n level settings',
   'Tests run at one log level; a side effect in a log argument, or in a block enabled by a level, is invisible at that level.', TECH_EFF + ' (post-dominance regions of every branch on the level)',
   observe=['effects of code executed only when a level bit is set']),
]

TECH_SHAPE = 'shape analysis (symbolic linked-list abstract domain with summarised segments, linear and bit-level value domain) over LLVM IR'
EVM = [('event list', 'src/event.c add_event, cancel_event, advance; src/event.h struct _event')]
PROPS += [
 P('E01', 'The event list stays one consistent list under every use',
   'Whatever sequence of adding, cancelling and advancing happens, including events that add or cancel events while they run, the event list stays a single properly linked list: its head, tail and back links agree, no event is lost, duplicated or reordered, and every event is freed exactly once and never used afterwards.',
   ['src/event.c', 'src/event.h'], EVM, 'event lists of any length and every call sequence',
   'Tests use a few short lists; a wrong link only shows for a particular position in the list and a later operation on it.', TECH_SHAPE,
   state=[('event_head/event_tail', 'delta list of pending events', 'src/event.c')], observe=['list structure at every return and at every event call']),
 P('E02', 'Every event fires exactly when it was asked to',
   'An event queued with a delay runs after exactly that many advances of the clock, whatever else is queued or cancelled before it fires: adding or cancelling one event never moves another one in time.',
   ['src/event.c', 'src/event.h'], EVM, 'event lists of any length, all delays, all call sequences',
   'Delays are stored relative to the previous event; the sum over the whole list has to be preserved for every list, not for a sample.', TECH_SHAPE,
   state=[('time', 'delay relative to the previous event', 'src/event.h struct _event')], observe=['sum of delays up to each event']),
 P('E03', 'Each due event runs once, with its own arguments',
   'Advancing the clock runs exactly the events whose time has come, each once, with the device, argument and value it was queued with. Cancelling removes an event of that device and function if there is one and no other event. Queuing stores the event once, or runs it at once when the delay is zero.',
   ['src/event.c', 'src/event.h'], EVM, 'event lists of any length, all call sequences, events that queue or cancel events',
   'Sampling cannot cover events that cancel or queue events at the moment they fire.', TECH_SHAPE,
   observe=['calls made through the event function pointer', 'list contents at return']),
 P('L01', 'The device table names exactly the devices attached',
   'A device attached at an address is found at that address under the channel mask until it is detached; attaching or detaching one device never loses, reorders or duplicates another, and every channel number an address can carry is either a real channel or answered by no device.',
   ['src/device/device.c', 'src/device/device.h'], [('device registry', 'src/device/device.c add_chan, find_chan, del_chan; chan[]')], 'all addresses and masks, any number of devices per channel, any attach/detach order',
   'Tests attach one or two devices on low channels.', TECH_SHAPE, state=[('chan[]', 'list of devices per channel', 'src/device/device.c')], observe=['channel list at return', 'result of find_chan']),
 P('L02', 'Every attached controller and device is serviced exactly once',
   'Each call to the disk stepper steps every attached controller once with its own data; attaching or detaching one never affects another. System start-up and shutdown reach every device on every channel.',
   ['src/device/device.c', 'src/device/device.h'], [('controller list', 'src/device/device.c add_disk, del_disk, step_disk'), ('start-up and shutdown', 'system_init, system_shutdown')], 'any number of controllers and devices, any attach/detach order',
   'Tests attach at most one controller and never detach one.', TECH_SHAPE, state=[('disk', 'list of controllers to step', 'src/device/device.c')], observe=['step calls', 'list at return']),
]

TECH_NUM = 'abstract interpretation over LLVM IR (intervals, difference bounds, string terminators, whole-program field invariants)'
TECH_PATH = 'path-sensitive typestate analysis over LLVM IR (ghost state and return-value intervals, callees followed)'
CONF = ['src/conf.c', 'src/conf.h', 'src/logger.c', 'src/model1052/model1052.c', 'src/model1442/panel1442.c', 'src/model1443/model1443.c', 'src/model2415/model2415.c', 'src/model2844/panel2844.c', 'src/model2030/model2030.c', 'src/model2050/cpu2050.c']
CFM = [('configuration scanners', 'src/conf.c get_model, get_addr, get_string, get_option, get_integer, get_index, load_config'), ('creators', 'every function registered with DEV_LIST_STRUCT or LOG_OPT_STRUCT')]
PROPS += [
 P('C01', 'No configuration line can overrun a buffer or table',
   'Whatever a configuration file contains (any keyword, model, unit number, address, option, value, length or punctuation), reading it and creating the devices it describes never reads or writes outside the line buffer, the option record, the device structures or the name tables.',
   CONF, CFM, 'all configuration file contents', 'Tests use a few well-formed lines; an overrun needs a particular length, missing value or out-of-range unit or model number.', TECH_NUM,
   note='Bounds of every access proved for all inputs; unproved accesses are reported.', over=['inputs'], observe=['every array, string and heap access in the configuration reader and the creators']),
 P('C02', 'Nothing carries over from one option or line to the next',
   'The name, model letter, unit and model numbers, flags, address and value a creator sees always come from the text just read: a scanner that reports success has set every part of the option record it is responsible for.',
   CONF[:2], CFM[:1], 'all configuration file contents and option orders', 'Stale parts only show for particular orders of lines and options.', 'must-write dataflow analysis over LLVM IR',
   over=['inputs', 'histories'], observe=['the option record at each successful return of a scanner']),
 P('C03', 'A configuration error is always reported and stops the start',
   'If a definition has a missing address, a value that cannot be parsed, or needs storage that cannot be obtained, the creator reports failure, load_config reports failure, and the simulator is not started. Nothing that failed is reported as accepted.',
   CONF + ['src/main.c'], CFM, 'all configuration file contents, every failing call', 'Error paths of creators are not exercised by the tests.', TECH_PATH,
   over=['inputs', 'fault_sequences'], observe=['result of every creator and of load_config']),
 P('C04', 'A device definition takes effect completely or not at all',
   'A definition that is rejected leaves no device on a channel list, one that is accepted has its device there (unless it attaches a unit to an existing control unit, or has the reserved address zero), and a unit can only be attached to a control unit of its own kind.',
   CONF[3:], CFM[1:], 'all definitions, every failing call', 'Error paths of creators are not exercised by the tests.', TECH_PATH,
   over=['inputs', 'fault_sequences'], observe=['add_chan and del_chan calls against the result of the creator', 'uses of devices found by address']),
 P('C05', 'Every configuration keyword reaches the creator it names',
   'Every compiled-in CPU, device, unit and log keyword is registered exactly once, under a name a configuration line can produce, with a type load_config hands to a creator, and so that the scan over the registration section finds it.',
   CONF, [('registration entries', 'DEV_LIST_STRUCT and LOG_OPT_STRUCT in each model; struct _control in src/conf.h')], 'every registered keyword',
   'The tests create devices directly and never go through the registration table.', 'table analysis of the compiled registration entries and of the dispatch in load_config', over=['inputs'],
   observe=['registration entries as the compiler emits them']),
]

TECH_TAB = 'table analysis of constant initialisers in the compiled program'
PROPS += [
 P('X01', 'Parity tables give every code its correct parity',
   'For every byte the odd-parity table supplies exactly the bit that makes the number of ones odd, for every six-bit tape code the even-parity table supplies exactly the track bit that makes it even, and neither table changes at run time.',
   ['src/device/xlat.c'], [('parity tables', 'src/device/xlat.c odd_parity, parity_table')], 'all 256 bytes and all 64 codes',
   'Tests exercise a handful of byte values; one wrong entry shows up only as a parity error for that byte.', TECH_TAB, over=['inputs'], observe=['table entries as compiled; stores into the tables']),
 P('X02', 'Character conversions are inverses of each other',
   'Every printable character that has an EBCDIC code converts to it and back unchanged, every EBCDIC code has its own twelve-row card code with at most one punch in rows 1 to 7, the keypunch code of a character is the card code of its EBCDIC code, and each tape BCD code stands for its own EBCDIC code.',
   ['src/device/xlat.c', 'src/device/card.c'], [('code tables', 'src/device/xlat.c ascii_to_ebcdic, ebcdic_to_ascii, bcd_to_ebcdic; src/device/card.c ebcdic_to_hol_table, ascii_to_hol_029')], 'all characters and codes',
   'Tests convert a few characters.', TECH_TAB, over=['inputs'], observe=['table entries as compiled; stores into the tables']),
]

TECH_MIC = 'partial evaluation of the cycle function per control-field value and canonical Boolean dataflow (LLVM IR), compared with a reference table'
def MIC(i, title, st, f, mech, fields):
    return P(i, title, st + ' Everything else in the machine is left alone by that value.', ['src/' + f], mech, 'all values of the control fields ' + fields + ', all register contents',
             'The tests run a few instructions with a few operands; most micro-orders are never executed with the operand that would show a wrong bit, and many are used by a handful of control words only.', TECH_MIC,
             note='Exact Boolean functions (decision diagrams) for all but a handful of effects, which are compared by the registers and bits that enter them. Each field is taken with the other fields at rest, plus the listed combinations. What all values of a field have in common is not compared.',
             over=['inputs', 'programs'], observe=['stores the cycle function makes for each value of each control field: bits stored and condition'])
C50 = [('2050 cycle', 'src/model2050/cpu2050.c cycle_2050: one switch per control field'), ('reference', '/verif/sa/spec/micro_*.txt')]
C30 = [('2030 cycle', 'src/model2030/cpu2030.c cycle_2030: one switch per control field'), ('reference', '/verif/sa/spec/micro_*.txt')]
C44 = [('2844 cycle', 'src/model2844/model2844.c step_2844: one switch per control field'), ('reference', '/verif/sa/spec/micro_*.txt')]
PROPS += [
 MIC('M03', '2050 adder micro-orders do exactly the transfer they name',
     'In a 2050 control word each value of the adder fields (left input LX, true/complement TC, right input RY, adder function AD, length counter DG, shifter and adder output AL, adder destination TR, local storage SF and WS) gates exactly the register bits it names into the adder, forms sum, carries and shifted result as it names, and stores exactly the bits it names, including the storage-protection condition on stores to main storage, in CPU mode and in channel mode.',
     'model2050/cpu2050.c', C50, 'LX TC RY AD DG AL TR SF WS'),
 MIC('M04', '2050 mover and byte counter micro-orders do exactly what they name',
     'In a 2050 control word each value of the mover fields (left and right inputs LU and MV, functions UL and UR, destination WM, byte counters UP MD LB MB, instruction address and length IV) selects exactly the register byte it names, applies the function it names to each half, stores it where it names, and steps the counters as it names, in CPU mode and in channel mode.',
     'model2050/cpu2050.c', C50, 'LU MV UL UR WM UP MD LB MB IV'),
 MIC('M05', '2050 branch and status micro-orders test and set exactly what they name',
     'In a 2050 control word each value of the next-address and branch fields (ZN, ZF, AB, BB) tests exactly the condition it names and puts it in exactly the next-address bit it names, and each value of the status field SS sets exactly the status, sign, key, condition-code or channel bits it names.',
     'model2050/cpu2050.c', C50, 'ZN ZF AB BB SS'),
 MIC('M06', '2030 data-flow micro-orders do exactly the transfer they name',
     'In a 2030 control word each value of the data fields (A and B sources CA and CB, halves CF and CG, true/complement/decimal CV, carry and function CC, destination CD, constant CK) gates exactly the bits it names, forms result and carry as it names, and stores exactly the register it names.',
     'model2030/cpu2030.c', C30, 'CA CB CF CG CV CC CD CK'),
 MIC('M07', '2030 branch, storage and status micro-orders do exactly what they name',
     'In a 2030 control word each value of the next-address fields (CH, CL, CK) tests exactly the condition it names, each value of the storage fields (CM, CU) addresses and reads or writes exactly the storage it names under its protection and wrap conditions, and each value of the status field CS sets exactly the status or channel bits it names; a microprogram that a channel interrupted is resumed where it was.',
     'model2030/cpu2030.c', C30, 'CH CL CK CM CU CS'),
 MIC('M08', '2844 micro-orders do exactly what they name',
     'In a 2844 disk-control word each value of the control fields (sources CA and CB, true/complement CV, function CC, destination CD, branch tests CH and CL, status CS) gates, computes, stores, tests and sets exactly what it names.',
     'model2844/model2844.c', C44, 'CA CB CV CC CD CH CL CS'),
]

PROPS += [
 P('M01', 'Every control store holds exactly the words of its listing',
   'The 2050, 2030 and 2844 run the microprograms of their listings: every control word compiled into a machine is, field by field, the word its listing gives for that address, no word is missing or added, every word satisfies its check bits, the listings are the reviewed ones, and nothing writes into a control store.',
   ['src/model2050/cros2050.c', 'src/model2030/cros2030.c', 'src/model2844/cros2844.c', 'src/model2844/model2844_ros.txt', 'src/model2030/ccros2030.txt'],
   [('converters', 'cros2050.c, cros2030.c, cros2844.c: listing to control store table'), ('control stores', 'ros_2050, ros_2030, ros_2844')], 'all control words of the three machines',
   'The tests execute a small part of the microprograms; a wrong bit in any other word goes unnoticed.', 'table analysis of the compiled control stores against an independent reading of the listings and a reference; write-effect analysis',
   over=['programs'], observe=['the control store initialisers as compiled']),
]

PROPS += [
 P('S01', 'Nothing arriving on a channel or terminal indexes outside a device array',
   'Whatever data bytes, commands, unit addresses, statuses, typed characters or card columns arrive, the console typewriter, the card reader/punch, the tape control and the disk control never read or write outside the arrays of their state (card images, key ring, drive tables, sense bytes, registers) or outside the code, parity and status tables they look things up in; the card code tables are never indexed beyond their end.',
   ['src/model1052/model1052.c', 'src/model1442/model1442.c', 'src/model2415/model2415.c', 'src/model2844/model2844.c', 'src/device/card.c'],
   [('controllers', 'model1052.c, model1442.c, model2415.c, model2844.c: bus functions, event callbacks, terminal thread'), ('card codes', 'src/device/card.c: conversion tables')], 'all inputs and all sequences of them',
   'Tests feed well-formed commands and short records; an overrun needs an address without a drive, a column too many or a full ring.', TECH_NUM,
   note='Bounds of every access proved for all inputs; unproved accesses are reported. State fields are bounded by what every function of the device can leave in them. The printer and the card deck buffers are not covered.', over=['inputs', 'histories'], observe=['every array element and table entry used by the controllers']),
 P('S02', 'No program makes a processor index outside its registers and storage arrays',
   'Whatever program and channel program runs, whatever the dials and switches are set to and whatever the devices put on a channel, a cycle of the 2030 or of the 2050 never reads or writes outside the arrays of the machine state (local and bump storage, storage keys, per-channel registers, tags and status) or outside the parity, function and name tables it looks things up in.',
   ['src/model2030/cpu2030.c', 'src/model2050/cpu2050.c'],
   [('2030', 'src/model2030/cpu2030.c cycle_2030, step_2030'), ('2050', 'src/model2050/cpu2050.c cycle_2050, step_2050')], 'all programs, microprograms, dial settings and channel data',
   'Tests execute instructions with operands low in storage; the overruns that were found need an address above 512K, digits that are not decimal, a count running past 16 bits or a store from the switches.', TECH_NUM,
   note='Bounds of every access proved for all inputs; unproved accesses are reported. Left out: main storage itself (allocated at run time), the control store index, and 2030 local storage addressed by MN.', over=['inputs', 'histories'], observe=['every array element and table entry the processors use in a cycle']),
]

TECH_WB = 'path-sensitive typestate over LLVM IR with linear terms (who owns the latest data: buffer or file), helpers used by their proved contract'
TAPEM = [('tape buffer', 'src/device/tape.c tape_read_byte, tape_peek_byte, tape_readbk_byte, tape_write_byte, tape_write_prev, tape_start_rewind, tape_detach')]
DISKM = [('cylinder buffer', 'src/device/dasd.c seek_callback, dasd_read_byte, dasd_write_byte, dasd_format, dasd_attach, dasd_detach')]
PROPS += [
 P('W01', 'Data written to a tape or disk reaches its image, at its place',
   'Every byte stored in the tape buffer or the disk cylinder buffer is marked as changed and written to the image file, with all the data in use and at the file position the buffer was loaded from, before the buffer is refilled, moved to another position, closed or released. A buffer whose image was closed is not left marked as changed, and nothing is written to the file behind the back of a buffer that covers it.',
   ['src/device/tape.c', 'src/device/dasd.c'], TAPEM + DISKM, 'all sequences of tape and disk operations, all positions and lengths',
   'Tests write short records inside one buffer; a lost or misplaced block needs a record crossing the 32K buffer, a change of direction at its edge or a seek after a write.', TECH_WB,
   over=['inputs', 'histories'], state=[('tape buffer', 'buffer, pos, len_buff, dirty', 'src/device/tape.c'), ('cylinder buffer', 'cbuf, fpos, dirty', 'src/device/dasd.c')], observe=['every read(), write(), lseek(), close() and free() of the image and its buffer']),
 P('W02', 'The tape position moves by exactly the byte read or written',
   'Reading, reading back or writing a byte of the tape image moves the position in the file by exactly one over the byte concerned (rewinding sets it to the start, any other operation leaves it), across refills of the buffer too; index and length always stay within the buffer, and a newly attached tape starts empty at its beginning.',
   ['src/device/tape.c'], TAPEM, 'all sequences of tape operations, all positions, short and failed file reads',
   'An off-by-one at a buffer edge only shows when a record straddles a multiple of 32768 bytes in one particular direction.', TECH_WB,
   over=['inputs', 'histories'], state=[('tape buffer', 'pos, pos_buff, len_buff', 'src/device/tape.c')], observe=['position, index and length at every return', 'every access to the buffer']),
 P('W03', 'The disk buffer always holds the cylinder the drive is on',
   'Whenever a disk operation loads the cylinder buffer it reads it from the image at the end of the header plus the size of a cylinder times the number of the cylinder the drive reports as its current one afterwards; attaching an image starts on cylinder zero.',
   ['src/device/dasd.c'], DISKM, 'all seeks, drive types and cylinder numbers',
   'Tests stay on few cylinders; a wrong factor shows only for particular drive types or distances.', TECH_WB,
   over=['inputs', 'histories'], state=[('drive position', 'cyl, ncyl, fpos', 'src/device/dasd.c')], observe=['file offset of every load of the cylinder buffer', 'current cylinder at return']),
 P('W04', 'A tape record is read back whole, in both directions, as it was written',
   'In every tape image format, starting, writing and finishing a record leaves its length before and after its bytes (padded to even length in SIMH images, marked at its first byte in 7-track images); reading forward or backward takes the length from there, delivers exactly its bytes in order, reports the end of the record only then, and finishing leaves the tape at the other end of the record however many bytes were taken. Tape marks are written so that they are read as marks in both directions and passed over by exactly their size.',
   ['src/device/tape.c'], TAPEM + [('framing', 'src/device/tape.c tape_write_start, tape_write_frame, tape_write_mark, tape_read_forw, tape_read_back, tape_read_frame, tape_finish_rec')], 'all three image formats, all record lengths and contents, any number of bytes taken before the record is finished',
   'Tests read back a few whole records of even length; odd lengths, records cut short, lengths above 255 or 65535 and backward reading of short records are not covered.', 'abstract interpretation of every framing operation from a symbolic tape position over linear terms, byte movers by the contract W02 proves, result compared with the record layout',
   over=['inputs', 'histories'], state=[('record', 'lrecl, orecl, srec, format', 'src/device/tape.c')], observe=['position, length and mode at every return', 'which byte of the image every byte delivered, written or put into a length is']),
]
