#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run it to regenerate the file)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, tests, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": tests,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("P01", "Poll scheduler picks the right entry, in time, without starvation",
     "At every step the poll scheduler offers only entries whose deadline has come, earliest deadline first, high priority before low priority except when the accumulated high priority time reaches the allowed lag, in which case (and only then) a waiting low priority entry is served and is forced through; when only high priority entries are requested, no low priority entry is offered; accepted entries leave the queue, refused ones stay, and none is ever lost, duplicated or reordered, also after removals. The deadlines, emptiness, membership and accumulated balance it reports are always exact. The poll rate limiter reports the limit as exceeded exactly while more registers than the limit were polled in the current one-second window, and lifts the limit when the window is over.",
     ["histories"], "all sequences of add / remove / select / account-time / reset operations up to a depth over a small set of items, priorities, deadlines, acceptance patterns and clock steps",
     "PollPlanTest samples a few hand written sequences; ordering, balancing and throttling have to hold for every sequence",
     ["src/poll_plan.h"], [("TScheduler", "src/poll_plan.h"), ("TRateLimiter", "src/poll_plan.h"), ("TPriorityQueue::Remove", "src/poll_plan.h")],
     [("HighPriorityQueue / LowPriorityQueue", "entries waiting for their deadlines", "src/poll_plan.h"), ("TimeBalancer", "how long low priority entries were held back", "src/poll_plan.h")])
prop("P22", "Checksums, bit and byte packing, BCD and byte stuffing are exact",
     "The CRC-16 and CRC-24 functions compute the published checksums, bit masks and byte order helpers agree with their arithmetic definitions, BCD conversion is exact for every valid code, and decoding a byte-stuffed message gives back exactly the message that was encoded, wherever the escaped bytes are.",
     ["inputs"], "every byte string up to a length over an alphabet with all special bytes; every number of the tested widths",
     "BinUtilsTest checks one or two vectors per function",
     ["src/bin_utils.cpp", "src/bin_utils.h", "src/bcd_utils.cpp", "src/crc16.cpp"],
     [("EncodeByteStuffing/DecodeByteStuffing", "src/bin_utils.cpp"), ("CRC16", "src/crc16.cpp"), ("BCD", "src/bcd_utils.cpp")])
prop("P23", "Firmware versions have a total order; MQTT names are always legal",
     "Comparing firmware versions is a total order that follows release precedence (numeric parts numerically, a release candidate before its release, a local +wb build after it), so any two versions compare the same way whichever side they are on and sorting is consistent. Converting any string to an MQTT name yields a string with none of the characters MQTT forbids, is idempotent and leaves legal names alone.",
     ["inputs"], "all pairs and triples of a version set; all strings up to 6 characters over representative character classes",
     "CommonUtilsTest compares a dozen pairs; antisymmetry and transitivity are statements about all pairs and triples",
     ["src/common_utils.cpp"], [("util::CompareVersionStrings", "src/common_utils.cpp"), ("util::ConvertToValidMqttTopicString", "src/common_utils.cpp")])
prop("P02", "No device or register starves whatever the others do",
     "On one port every register that can be read is read again within a bounded time as long as its device answers: no combination of other devices and registers that are dead, slow, noisy, flapping, refusing, unavailable, rebooting, sending events or overloading the port with high priority polls stops its polling for longer than several seconds, and polling resumes after an outage of the port or of all devices. A register with a read rate limit is not read more often than that, the global limit of low priority reads per second is kept, and the port thread never spins endlessly without doing anything.",
     ["histories", "fault_sequences", "schedules"], "all pairs (thorough: triples) of 22 kinds of neighbour devices × global rate limit × outage of the port or of all devices × order of devices × RTU/TCP; 50 s of virtual time each",
     "Unit tests run a few cycles with one or two devices; starvation comes from particular combinations of faults, priorities and time",
     ["src/serial_client_register_poller.cpp", "src/pollable_device.cpp", "src/poll_plan.h", "src/serial_client.cpp", "src/serial_client_events_reader.cpp"],
     [("TSerialClientRegisterPoller::OpenPortCycle", "src/serial_client_register_poller.cpp"), ("TPollableDevice::ReadRegisterRange / ScheduleNextPoll", "src/pollable_device.cpp"), ("TSerialClientRegisterAndEventsReader::OpenPortCycle", "src/serial_client.cpp")],
     [("queues of the schedulers", "registers and devices waiting for polling", "src/poll_plan.h")],
     ["requests on the bus"])
prop("P03", "Values sent to controls are delivered, retried or reported",
     "The latest valid value sent to a writable control is written to its register (with the right function, to the right address) unless a newer one supersedes it: the write is repeated after transient failures, for at least max_write_fail_time_s but not noticeably longer, and stops once the device has accepted the value or permanently refused it; with max_write_fail_time_s 0 there is a single attempt. A failed write shows the write error mark on the control at once, a successful one clears the mark and shows the written value; a value is never dropped without either. Nothing else is ever written: no stale value after a newer one, no write for an invalid text or without a command, and the other devices of the port keep being polled meanwhile.",
     ["histories", "fault_sequences"], "all combinations of up to two (thorough: three) commands to two of four controls at four moments, with 23 (thorough: 34) fault scenarios (every kind of bad answer once or forever, device offline, port broken for several spans) and five device configurations",
     "Unit tests write a value and at most one error follows; retry windows, superseding and reconnection interact over time",
     ["src/serial_client.cpp", "src/register_handler.cpp", "src/serial_client_register_poller.cpp", "src/write_channel_serial_client_task.cpp", "src/serial_port_driver.cpp"],
     [("TRegisterHandler::Flush", "src/register_handler.cpp"), ("TSerialPortDriver::SetValueToChannel", "src/serial_port_driver.cpp"), ("write task", "src/write_channel_serial_client_task.cpp")],
     [("Dirty / ValueToSet", "value waiting to be written", "src/register_handler.h"), ("WriteFirstTryTime", "start of the retry window", "src/register_handler.h")],
     ["MQTT publications", "bytes on the bus"])
prop("P04", "Device state follows the exchanges: disconnect, back-off, reconnect",
     "A device that was connected is declared disconnected after a failed cycle exactly when both at least device_max_fail_cycles cycles in a row have failed and device_timeout_ms has passed since its last good exchange; a negative value of either turns this off. A disconnected device is tried again with pauses growing from 0 by 500 ms per failed attempt up to 10 s, is declared connected by the first complete good exchange, and its setup items go first after every (re)connection and never otherwise. Every change of the state is announced once on the device's error topic, at the moment it happens.",
     ["histories", "fault_sequences"], "all histories of four good/bad phases with lengths from a set straddling the limits, for ten combinations of limits, setup and a second device, and several kinds of bad answers",
     "Unit tests check one disconnection with default limits",
     ["src/serial_device.cpp", "src/pollable_device.cpp", "src/serial_client_register_poller.cpp", "src/serial_client.cpp"],
     [("TSerialDevice::SetTransferResult", "src/serial_device.cpp"), ("TDeviceCommunicationStateListener / reschedule", "src/serial_client_register_poller.cpp"), ("TPollableDevice::RescheduleAllRegisters", "src/pollable_device.cpp")],
     [("RemainingFailCycles, LastSuccessfulCycle, ConnectionState", "state of the connection", "src/serial_device.h"), ("DisconnectedPollDelay", "back-off", "src/pollable_device.h")],
     ["meta/error of the device", "bytes on the bus"])
prop("P05", "Suspended polling stays suspended until resumed or 10 minutes pass",
     "After polling of a device is suspended the service sends it no poll request until polling is resumed by a request or 10 minutes pass since the last suspend request, whatever happens meanwhile (disconnection, broken port, writes to its controls, other suspensions); a suspended device is shown as disconnected. After resuming the device is set up again and all its registers are polled as before, no more and no less often. Resuming a device which is not suspended is refused, and polling of the other devices is not disturbed.",
     ["histories", "schedules"], "all sequences of three (thorough: four) operations (suspend, resume, device off/on, port broken/repaired, write to a control, suspend/resume another device, 10 minute pause) with three distances in time, between cycles or in the pause of the port thread, for three kinds of connection limits",
     "Unit tests suspend and resume once; disconnection and suspension share the queues of the poller",
     ["src/serial_client_register_poller.cpp", "src/serial_client.cpp", "src/pollable_device.cpp", "src/rpc/rpc_device_handler.cpp"],
     [("SuspendPoll/ResumePoll", "src/serial_client_register_poller.cpp"), ("RescheduleDisconnectedDevices", "src/serial_client_register_poller.cpp")],
     [("DevicesWithSpendedPoll, DisconnectedDevicesWaitingForReschedule", "devices out of the schedule", "src/serial_client_register_poller.h")],
     ["requests on the bus", "meta/error of the device"])
prop("P09", "Setup items are all applied before polling, after every (re)connection",
     "Before the first poll after each (re)connection of a device every setup item has been written: when polling starts the registers of the device hold the values of the template, except items the device permanently refused in that attempt, and no other bit of the device has been changed. A transient failure of any setup request makes the whole setup be done again; nothing of it is repeated while the device stays connected. Items are written in the order of the template with preserve_setup_order, otherwise by address, and no request exceeds max_write_registers (unless a single item does).",
     ["histories", "fault_sequences", "inputs"], "all subsets of up to three (thorough: four) of 14 kinds of items (widths, partial bits, coils, strings, multi/single), both orders, preserve_setup_order, max_write_registers 0/1/2 and one fault of several kinds at each of the first requests of the first or second connection, with a power cycle between them",
     "Unit tests write fixed setup sections with no faults",
     ["src/modbus_common.cpp", "src/devices/modbus_device.cpp", "src/serial_device.cpp"],
     [("Modbus::WriteSetupRegisters", "src/modbus_common.cpp"), ("TSerialDevice::Prepare", "src/serial_device.cpp")],
     [("TRegisterCache", "known values of partially written registers", "src/modbus_common.h")],
     ["registers of the simulated device at the first poll"])
prop("P14", "The port is opened and closed exactly by its limits",
     "A closed port is opened at once, and after a failed attempt to open it not again until the reopen time-out has passed, the failure being reported each time; an open port is not opened again. An open port is closed after a failed cycle exactly when at least the allowed number of cycles in a row (since it was opened or the last good cycle) have failed and the allowed time has passed since the last good cycle or opening; a negative limit turns this off, and a good cycle never closes the port.",
     ["histories"], "all sequences of up to five (thorough: six) cycles: good, failed, opening fails, closed by somebody else, with steps of time around the limits, for 20 combinations of limits; whole port with two devices going on and off in three (thorough: four) phases, for 12 combinations of limits",
     "Unit tests run one sequence of failures",
     ["src/port/port.cpp", "src/port/port.h", "src/serial_client.cpp", "src/serial_port_driver.cpp"],
     [("TPortOpenCloseLogic", "src/port/port.cpp")],
     [("LastSuccessfulCycle, RemainingFailCycles, NextOpenTryTime", "state of the decision", "src/port/port.h")])
prop("P13", "A control shows what was last read, with read errors and by the policy",
     "After every poll the control shows the last read values of its registers converted by scale, offset, format and on/off values, without a read error; if a register of the control could not be read (no or bad answer, refused, the error or unsupported value was read) the control shows a read error and keeps its last value. Nothing is published for a control before all its registers have been read or refused once; a zero press counter right after a reconnection is not shown. Values are published by the chosen policy: once per change, every read, or every change and unchanged ones once per interval; every accepted press of a push button is published.",
     ["histories", "inputs"], "all sequences of five (thorough: seven) reads with the same / next / special value, no answer or refusal for 11 kinds of controls, three publication policies and two connection limits",
     "Unit tests publish a few values; stale errors and missed or doubled publications need particular sequences",
     ["src/serial_port_driver.cpp", "src/serial_client.cpp", "src/register.cpp"],
     [("TDeviceChannel::UpdateValueAndError", "src/serial_port_driver.cpp"), ("TSerialPortDriver::OnValueRead", "src/serial_port_driver.cpp"), ("TRegister::SetValue/SetError", "src/register.cpp")],
     [("CachedCurrentValue, CachedErrorText, LastControlUpdate", "what is shown", "src/serial_port_driver.h")],
     ["MQTT publications"])
prop("P06", "Only genuine answers of Modbus devices are accepted",
     "A Modbus RTU or TCP answer is taken only if it is intact (checksum or TCP header), comes from the addressed device, belongs to the request (function, and for TCP the transaction) and carries at least the data requested; then exactly its data become the values of the requested registers. Any other answer, damaged in any way, leaves the values unchanged and is a transient error, while a proper exception answer with code 1, 2 or 3 (and nothing else) is a refusal. After a bad answer communication recovers: the next good answers are accepted again, and nothing of a bad or late answer is ever taken for the answer to another request.",
     ["inputs", "fault_sequences"], "10 kinds of requests × RTU, RTU with forced frame timeout, TCP × every truncation, one and two bit error, function, exception, slave, byte count, length and transaction substitution (thorough: bursts up to 10 bits, recovery after each)",
     "Unit tests feed a handful of malformed frames; the parsers have to be right for every corruption",
     ["src/modbus_base.cpp", "src/modbus_common.cpp", "src/modbus_base.h"],
     [("TModbusRTUTraits / TModbusTCPTraits", "src/modbus_base.cpp"), ("Modbus::ParseReadResponse", "src/modbus_common.cpp"), ("ExtractResponseData", "src/modbus_base.cpp")],
     [("transaction ids", "matching of TCP answers", "src/modbus_base.cpp")],
     ["values of registers", "kind of error"])
prop("P07", "Modbus registers are read within the limits and decoded from their own place",
     "Whatever the layout of registers, every readable one shows the value decoded from its own addresses, bits, word and byte order (with the address shift of modbus_io devices), again after the device changes it. Every read request uses the right function, starts and ends at configured registers (or has min_read_registers registers), spans no run of other addresses longer than max_reg_hole / max_bit_hole, and has at most max_read_registers registers (by default 1, with 0 or too big values the limit of the protocol) unless a single register needs more or min_read_registers demands more. A device that refused to read other addresses is not asked for them again, and a word register the device refuses shows a read error, is not asked for again and spoils no other register.",
     ["inputs", "histories"], "all layouts of three registers (thorough: five bits, nine kinds) of five kinds with gaps 0, 1, 2, 4 or overlapping × four register types × holes 0/1/3 × max_read 1/2/4/0 × device tolerating holes, refusing them, refusing one register, continuous read × order × modbus_io shifts; tables of 130 registers or more × all limits around the limits of the protocol × min_read 1/3/8",
     "Unit tests read some fixed layouts; merging depends on the combination of layout, limits, availability and history",
     ["src/modbus_common.cpp", "src/pollable_device.cpp", "src/devices/modbus_device.cpp", "src/devices/modbus_io_device.cpp"],
     [("TModbusRegisterRange::Add / ReadRange", "src/modbus_common.cpp"), ("Modbus::ReadRegisterRange", "src/modbus_common.cpp"), ("TPollableDevice::ReadRegisterRange", "src/pollable_device.cpp")],
     [("Available, SupportsHoles", "what the device has refused", "src/register.h")],
     ["requests on the bus", "MQTT publications"])
prop("P08", "Written values get exactly to their own bits of Modbus registers",
     "A value written to a control is stored by the device exactly in the addresses and bits of its register, in its format, word and byte order (at write_address if given, with the shift of modbus_io devices), too big values being cut to the width of the register; reading shows the same value again. No other register and no other bit of the same registers changes: they keep the contents last read or written, also after failed writes, after a reconnection and when the first poll has not come yet. holding_single registers are written one by one by function 6, holding_multi and longer registers by a single request with function 16, coils by function 5, and nothing is written without a command.",
     ["histories", "inputs", "fault_sequences"], "27 kinds of registers (widths 1 bit to 64, integers, BCD, floats, strings) × three kinds of holding registers × byte and word order × write_address × modbus_io × before/after the first poll × all sequences of two or three operations of nine (three values, neighbour control, device changes its registers, lost request, lost answer, refusal, restart of the device)",
     "Unit tests check the bytes of a few requests; neighbours, caches, failures and orders interact",
     ["src/modbus_common.cpp", "src/devices/modbus_device.cpp", "src/devices/modbus_io_device.cpp", "src/register.cpp"],
     [("Modbus::WriteRegister", "src/modbus_common.cpp"), ("ComposeNumberWriteRequestWords / ComposeRawSingleWriteRequestData", "src/modbus_common.cpp")],
     [("TRegisterCache", "known contents of registers", "src/modbus_common.h")],
     ["registers of the simulated device", "requests on the bus", "MQTT publications"])
prop("P15", "Serial and TCP ports cut the byte stream into frames without loss",
     "However the system splits the incoming bytes, reading a frame returns the next bytes of the stream, none lost, doubled or overrun, and ends only when the frame is complete, the requested length is reached or there is a pause longer than the frame timeout; it fails with a response timeout only if the first byte is later than the response timeout, and no wait is endless. Skipping noise removes everything that comes with pauses up to 3.5 characters, short noise doesn't reopen the port, continuous noise ends with an error in a limited time; writing ends after the last bit has been transmitted, and pauses before requests are counted from the last activity. Settings of the line are those configured and are restored after temporary changes; any failing system call or a closing by the other side is reported as an error, a connection closed by the other side becomes closed, and the descriptor is never leaked, closed twice or used after closing.",
     ["inputs", "schedules", "fault_sequences"], "ports at 1200, 9600, 115200 baud and TCP; up to five (thorough: six) bytes with four kinds of pauses × 5 lengths × completeness conditions × false readiness; up to four (thorough: six) bytes of noise with four kinds of pauses, flows of 60 ms to infinity; all sequences of four (thorough: five) operations of eight with every system call failing; all settings × temporary settings",
     "Unit tests replace the port by a fake; splitting, pauses and failing system calls depend on the moment",
     ["src/port/file_descriptor_port.cpp", "src/port/serial_port.cpp", "src/port/tcp_port.cpp", "src/port/port.cpp"],
     [("TFileDescriptorPort::ReadFrame / SkipNoise / WriteBytes", "src/port/file_descriptor_port.cpp"), ("TSerialPort", "src/port/serial_port.cpp"), ("TTcpPort", "src/port/tcp_port.cpp"), ("TSerialPortSettingsGuard", "src/port/port.cpp")],
     [("Fd, LastInteraction", "state of the port", "src/port/file_descriptor_port.h")],
     ["frames", "system calls", "errors"])
prop("P10", "Contents of registers and text are converted by the documented formula both ways",
     "A control shows exactly the number its register holds in its format (signed and unsigned of 8 to 64 bits, BCD, floating point), or that number multiplied by scale plus offset, rounded to the nearest multiple of round_to, with 15 significant digits (7 for float). A number written as decimal, hexadecimal (0x) or with a fraction or exponent is stored as (number - offset) / scale rounded to the nearest integer (floats are not rounded), so the text shown by a control writes back the same contents; on_value and off_value stand for 1 and 0 in both directions. A text that is not a number, or a number that can't be represented in 64 bits, is not written at all, and a number out of the range of the format is either refused or cut to its low bits.",
     ["inputs"], "16 formats × 9 scales × 5 offsets × 6 roundings × all contents of 8 bits (16 bits without rounding), boundary patterns of wider ones, all exponents of floats; 66 texts × 16 formats × 9 conversions from MQTT to registers of a simulated device; 7 on_values × 6 off_values × 10 formats",
     "Unit tests convert a few numbers; sign extension, rounding and limits fail for particular contents",
     ["src/register.cpp", "src/register_value.cpp", "src/bcd_utils.cpp", "src/serial_port_driver.cpp"],
     [("ConvertFromRawValue / ConvertToRawValue", "src/register.cpp"), ("TDeviceChannel::GetTextValue", "src/serial_port_driver.cpp"), ("TSerialPortDriver::SetValueToChannel", "src/serial_port_driver.cpp")],
     [("TRegisterConfig", "format, scale, offset, round_to", "src/register.h")],
     ["MQTT values", "registers of the simulated device"])

prop("P11", "Changes reported by Fast Modbus events reach the controls exactly once enabled",
     "Every change reported by an event of a device reaches the MQTT control of the register, single bit and 32-bit registers included, even if event packets are lost, damaged or repeated; a packet is confirmed only if it has come intact, and what an unconfirmed packet has reported isn't lost. Events are enabled for registers of devices with enabled events after every connection, reconnection and restart of the device, and then the actual values are read once; registers whose events don't work are polled, and those whose events work aren't polled, except one register of a device which has nothing else to poll, so that a dead device is noticed. Events of unknown registers are switched off in the device, failures of event exchange are shown as read errors and disappear after recovery, and floods of events don't stop polling and writing.",
     ["histories", "fault_sequences", "schedules"], "two devices with up to four registers with events and polled ones × up to four (thorough: six) changes at chosen moments × every fault of an event exchange (lost, damaged, cut, noise, late, answer of another device) × sequences of two (thorough: three) of connection loss, restart, refusal of events, closed port × unexpected events × floods of one device",
     "Unit tests exchange fixed packets with a fake device; losses, confirmations and restarts interact over a history",
     ["src/serial_client_events_reader.cpp", "src/modbus_ext_common.cpp", "src/serial_client.cpp", "src/pollable_device.cpp"],
     [("TSerialClientEventsReader::ReadEvents / EnableEvents", "src/serial_client_events_reader.cpp"), ("ModbusExt::ReadEvents / TEventsEnabler", "src/modbus_ext_common.cpp"), ("TSerialClientRegisterAndEventsReader", "src/serial_client.cpp")],
     [("EventState (LastAccessedSlaveId, confirmation slave and flag)", "what has to be confirmed", "src/modbus_ext_common.h"), ("ExcludedFromPolling", "registers with working events", "src/register.h")],
     ["requests on the bus", "MQTT publications", "state of the simulated devices"])

prop("P18", "User template upload and deletion",
     "After an accepted upload the device type is described by exactly the uploaded contents, kept in one file with a safe name inside the user directory, and after an accepted deletion by the shipped template or not at all; the type list, the templates and the editor schema show this at once and equally after a restart. A rejected request (invalid contents, a type in use without the confirmation, a file error) changes nothing, and templates of other types are never overwritten or lost. A crash or power loss at any point leaves for every type either the earlier or the new description usable.",
     ["histories", "crash_points", "fault_sequences", "inputs"], "all sequences of two (thorough: three) of uploads, deletions, restarts and manual changes of files over templates shadowing shipped ones, sharing file names and types × every failing file operation × every crash point with torn writes and loss of unsynchronised data; invalid contents of 30 kinds; names of types; types in use",
     "Unit tests upload a few valid templates; crash points, failing operations and histories of files aren't sampled",
     ["src/rpc/rpc_templates_handler.cpp", "src/templates_map.cpp", "src/confed_device_schemas_map.cpp", "src/file_utils.cpp"],
     [("TRPCTemplatesHandler", "src/rpc/rpc_templates_handler.cpp"), ("TTemplateMap", "src/templates_map.cpp"), ("TDevicesConfedSchemasMap", "src/confed_device_schemas_map.cpp")],
     [("Templates by type", "which file describes a type", "src/templates_map.h")],
     ["answers of the requests", "files", "templates and schemas given by the service"])

prop("P16", "Conditions of templates are parsed and evaluated by the documented rules",
     "A condition is accepted exactly if it consists of parameter names, integers and isDefined(name), joined with == != < <= > >= && || and grouped by parentheses, without spaces; anything else is refused with an error, never with a crash or a hang. Its value follows the usual precedence (comparisons of order, then equality, then &&, then ||, operators of one level grouped from the left); a comparison with an undefined parameter is false, except that != is true, and isDefined() tells whether a parameter has a value. The list of parameters a condition depends on contains every parameter mentioned in it and nothing else.",
     ["inputs"], "all texts of up to five (thorough: six) tokens or characters of the grammar, of up to eight (thorough: ten) brackets and operands, expressions of up to four (thorough: five) operands with all operators and one pair of brackets × values of the parameters (undefined, 0, 1, 2)",
     "Unit tests evaluate a few dozen expressions; precedence, spaces and malformed texts aren't enumerated",
     ["src/expression_evaluator.cpp", "src/expression_evaluator.h"],
     [("TParser", "src/expression_evaluator.cpp"), ("Eval", "src/expression_evaluator.cpp"), ("GetDependencies", "src/expression_evaluator.cpp")],
     [("TToken / TAstNode", "tokens and the tree of an expression", "src/expression_evaluator.h")],
     ["whether the text is accepted", "value of the expression for given parameters", "list of dependencies"])

prop("P17", "The configuration and device templates are merged into the documented devices",
     "The devices polled are exactly those described by the configuration merged with templates: channels, setup items and parameters whose conditions hold for the parameters (configuration first, then defaults of the template), with registers of subdevices shifted by shift and stride at any depth, and with properties set in the configuration overriding the template exactly where that is allowed (name, polling period, enabled, read-only and similar ones, but not addresses or types). Properties of ports and devices get exactly the configured values or their documented defaults, and configurations in older formats (poll_interval, numeric slave ids and passwords, numeric enums, channels lost from the template) mean the same as the new ones. Two devices of one port with the same address, repeated MQTT device ids, two ports with the same path, unknown types and malformed values are refused with an error without a crash, and every shipped template loads.",
     ["inputs"], "all conditions over two or three parameters of channels, setup items and parameters × values × defaults; every property of a channel × template × configuration; one to three levels of subdevices × shifts × strides × choices; pairs and triples of devices with every spelling of an address; every property of ports and devices × documented values; every value of a rich configuration and template replaced by each of 30 wrong ones; every shipped template with default and changed parameters",
     "Unit tests load a dozen fixed configurations; combinations of template, conditions, nesting and overrides aren't enumerated",
     ["src/serial_config.cpp", "src/config_merge_template.cpp", "src/config_schema_generator.cpp", "src/old_serial_config.cpp", "src/templates_map.cpp"],
     [("LoadConfig / LoadDevice", "src/serial_config.cpp"), ("MergeDeviceConfigWithTemplate", "src/config_merge_template.cpp"), ("TSubDevicesTemplateMap", "src/templates_map.cpp"), ("FixOldConfigFormat", "src/old_serial_config.cpp")],
     [("merged device description", "configuration with the template applied", "src/config_merge_template.cpp")],
     ["registers, names and settings of the loaded devices", "errors of loading"])

prop("P19", "RPC requests to devices get one true answer and don't disturb polling",
     "Every device/Load, device/LoadConfig, device/Set and port/Load request is answered exactly once: the first two give, for every requested (or, by default, every applicable) item, the value held by the device's register or 'unsupported' if the device hasn't the register (settings written in the configuration are given from it unless reading is forced, settings read before are never given after they could have been changed by device/Set or port/Load with a Modbus function or after the device had been lost, and up to two bad answers to reading of settings are tolerated); a successful device/Set leaves exactly the requested values in the device and changes nothing else; port/Load passes exactly the requested bytes or Modbus function, slave address, register, count and data and returns the answer, or the Modbus exception. Requests that name unknown or read-only items, or have malformed values, messages or out-of-range numbers, or to a WB device of another model or too old firmware, are answered by an error and write nothing to any device. A request goes to the device with the given id, or with the given port, type and address (decimal and hexadecimal notations are equal); a request with line settings to a device that isn't configured is executed with them and the port's settings are then restored; and no request changes the connection state or the suspension of a device: setup registers are still written when polling finds the device connected.",
     ["inputs", "histories", "fault_sequences"], "all targets (configured by id or address, decimal or hexadecimal, unknown; three device types on two ports) x sets of items x states of the device x memory contents; all single faults (thorough: pairs) of the exchange; all sequences of three operations (set, port/Load, raw, lost answers, loss of the device, changes) with settings read after each; all requests from unknown, disconnected, suspended states; Modbus and raw requests with all kinds of answers; malformed requests",
     "Unit tests check separate helpers with scripted answers; stale cache after particular histories, lost answers to writes, items sharing conditions and effects on polling afterwards aren't enumerated",
     ["src/rpc/rpc_device_handler.cpp", "src/rpc/rpc_device_load_task.cpp", "src/rpc/rpc_device_load_config_task.cpp", "src/rpc/rpc_device_set_task.cpp", "src/rpc/rpc_port_handler.cpp", "src/rpc/rpc_port_load_modbus_serial_client_task.cpp", "src/rpc/rpc_port_load_raw_serial_client_task.cpp", "src/rpc/rpc_port_load_request.cpp", "src/rpc/rpc_port_driver_list.cpp", "src/rpc/rpc_helpers.cpp", "src/serial_device.cpp"],
     [("TRPCDeviceHandler", "src/rpc/rpc_device_handler.cpp"), ("ReadRegisterList / CreateRegisterList", "src/rpc/rpc_device_handler.cpp"), ("LoadConfig ExecRPCRequest", "src/rpc/rpc_device_load_config_task.cpp"), ("Load ExecRPCRequest", "src/rpc/rpc_device_load_task.cpp"), ("Set ExecRPCRequest", "src/rpc/rpc_device_set_task.cpp"), ("ExecRPCPortLoadModbusRequest", "src/rpc/rpc_port_load_modbus_serial_client_task.cpp"), ("GetSerialClientParams", "src/rpc/rpc_port_driver_list.cpp")],
     [("parameters cache", "settings read by device/LoadConfig", "src/rpc/rpc_device_handler.h"), ("connection state", "state of a device and whether the last session wrote the setup section", "src/serial_device.h")],
     ["answers of RPC", "requests to devices and their memory", "line settings at each access", "connection state and suspension"])

prop("P20", "A firmware update succeeds only if the device is flashed completely",
     "An update (firmware then outdated components, bootloader then firmware again, or components alone) or a restore puts the device into the bootloader in the way it supports, writes the info block once and every 136-byte data block in order with up to three attempts (exception 4 means already written), shows growing progress in the retained state, and removes its entry only if the device has accepted everything; any failure, including those of the release server, leaves an entry with an error until it is cleared or the update is repeated. Only one operation runs at a time: other updates and restores, and requests for information about a device being updated, are refused with 'Task is already executing.', every request gets exactly one answer, and after the end of an operation, successful or not, the next one is accepted. The information about a device gives its versions, the released ones for its signature and suite, whether they are newer, and its components, with answers of the release server reused for exactly 10 minutes (firmware list), 30 minutes (bootloader list) and 2 hours (files).",
     ["inputs", "histories", "fault_sequences"], "all kinds of operations × protocols × sizes × sets of components × bootloader abilities, with one (thorough: two) disturbances: any fault at any request to the device, failures of the release server, requests of other clients at any moment; all sequences of four requests with malformed ones, unreachable devices and ports; all sequences of six moments and requests to the release server; all short lists of releases and file sizes",
     "Unit tests flash with one scripted exchange each; a fault at an arbitrary request, a failing second stage or a request in the middle of an update are not enumerated",
     ["src/rpc/rpc_fw_update_task.cpp", "src/rpc/rpc_fw_update_serial_client_task.cpp", "src/rpc/rpc_fw_restore_task.cpp", "src/rpc/rpc_fw_update_handler.cpp", "src/rpc/rpc_fw_update_state.cpp", "src/rpc/rpc_fw_downloader.cpp", "src/rpc/rpc_fw_get_firmware_info_task.cpp"],
     [("FlashFirmware / ReadFwDeviceInfo", "src/rpc/rpc_fw_update_task.cpp"), ("TFwUpdateSerialClientTask::Run", "src/rpc/rpc_fw_update_serial_client_task.cpp"), ("TFwRestoreTask::Run", "src/rpc/rpc_fw_restore_task.cpp"), ("TRPCFwUpdateHandler::Update", "src/rpc/rpc_fw_update_handler.cpp"), ("TFwDownloader", "src/rpc/rpc_fw_downloader.cpp")],
     [("update state", "list of updates and errors, published with retain", "src/rpc/rpc_fw_update_state.cpp"), ("update lock", "an operation is being executed", "src/rpc/rpc_fw_update_state.h")],
     ["requests to the device and its memory", "published states", "answers of RPC"])

prop("P24", "Threads of the service don't corrupt, block or lose each other's work",
     "Ports are polled by threads of their own while MQTT messages, RPC requests (device/*, port/Load, fw-update/*), changes of template files and the stop of the service come from other threads at any moment. Whatever the schedule, no memory is accessed by two threads at once without synchronization, no thread waits forever, the last value sent to a control reaches its device, every request is answered exactly once (unless the service is stopped first), including requests to any number of ports which aren't configured, a suspended device isn't polled after the answer to the request suspending it and is polled again after the resuming one, and events of a device are enabled again. Stop returns in bounded time, and the last published (retained) state of firmware updates and the last given schema of a template are those after the last change.",
     ["schedules"], "all schedules of twelve scenarios of real threads with up to one (some: two or three; thorough: one more) deviations from the round-robin order, where a switch is possible at every operation with a mutex, a condition variable, an atomic variable, a thread and at every exchange with a device; races are detected by the happens-before relation in each of them, so they needn't really collide",
     "Unit tests run one thread; a race, lost wakeup or a deadlock needs a particular order of the threads, and even a stress test meets it by chance",
     ["src/serial_driver.cpp", "src/serial_client.cpp", "src/serial_client_register_poller.cpp", "src/register_handler.cpp", "src/register.cpp", "src/rpc/rpc_port_driver_list.cpp", "src/rpc/rpc_device_handler.cpp", "src/rpc/rpc_fw_update_state.cpp", "src/rpc/rpc_fw_downloader.cpp", "src/templates_map.cpp", "src/confed_device_schemas_map.cpp"],
     [("TMQTTSerialDriver::Start / Stop", "src/serial_driver.cpp"), ("TSerialClient::SetTextValue / AddTask", "src/serial_client.cpp"), ("SuspendPoll / ResumePoll", "src/serial_client_register_poller.cpp"), ("TSerialClientTaskExecutor", "src/rpc/rpc_port_driver_list.cpp"), ("TFwUpdateState", "src/rpc/rpc_fw_update_state.cpp"), ("TTemplateMap", "src/templates_map.cpp")],
     [("tasks", "requests waiting for the thread of a port", "src/serial_client.h"), ("suspended devices", "devices whose polling is suspended, waiting for disconnection or for resuming", "src/serial_client_register_poller.h"), ("value to write", "last value sent to a control", "src/register_handler.h")],
     ["requests to devices and their memory", "answers of RPC", "published values and states", "end of threads"])

prop("P21", "Drivers of other protocols show only the device's values and deliver commands",
     "For meters and motors with protocols of their own (uniel, milur, mercury200/230, ivtm, lls, pulsar, energomera_ce, energomera_iec, neva, a_ok, dooya, windeco, somfy, s2k): whatever happens to an answer or to all answers during 12 s (lost, late, cut, with a changed or an extra byte, of another device or register, a protocol error, with less, more or odd data, session closed), a value shown without an error is one the register has had, the service neither crashes, nor loses the port, nor repeats requests endlessly, and within 30 s all values follow the device again. A command (switch, position, setting) lost on its way to the device or left without an intact answer is repeated until the device has executed it, settings sharing a request keep each other's values, nothing is written without a command, and a command refused by the device is shown with an error.",
     ["inputs", "faults", "schedules"], "all disturbances of the set (each byte changed or cut, each kind) at each exchange of a polling of 15 devices of 14 protocols, for one exchange or for 12 s; all pairs of commands to 6 protocols with pauses, each of the first four exchanges disturbed once or for 3 s",
     "Unit tests check the bytes of successful exchanges; a wrong value needs a particular damaged or late answer at a particular exchange, and its consequences are seen some exchanges later",
     ["src/serial_device.cpp", "src/iec_common.cpp", "src/devices/uniel_device.cpp", "src/devices/em_device.cpp", "src/devices/milur_device.cpp", "src/devices/mercury230_device.cpp", "src/devices/mercury200_device.cpp", "src/devices/ivtm_device.cpp", "src/devices/lls_device.cpp", "src/devices/pulsar_device.cpp", "src/devices/energomera_ce_device.cpp", "src/devices/energomera_iec_device.cpp", "src/devices/neva_device.cpp", "src/devices/s2k_device.cpp", "src/devices/curtains/a_ok_device.cpp", "src/devices/curtains/dooya_device.cpp", "src/devices/curtains/windeco_device.cpp", "src/devices/curtains/somfy_sdn_device.cpp"],
     [("TSerialDevice::ReadRegisterRange / WriteRegister", "src/serial_device.cpp"), ("TEMDevice::ReadResponse", "src/devices/em_device.cpp"), ("TPulsarDevice::ReadResponse", "src/devices/pulsar_device.cpp"), ("Somfy::TDevice::GetCachedResponse", "src/devices/curtains/somfy_sdn_device.cpp"), ("Aok::TDevice::WriteRegisterImpl", "src/devices/curtains/a_ok_device.cpp")],
     [("caches of answers", "values of several registers out of one answer", "src/devices/curtains/somfy_sdn_device.h"), ("session", "whether a meter lets read its registers", "src/devices/em_device.h"), ("late answers", "answers to skip before the next request", "src/serial_device.h")],
     ["published values and errors", "requests to devices", "state of devices"])

prop("P12", "A scan of a port finds every Fast Modbus device once and describes it exactly",
     "port/Scan (both commands, RTU and Modbus TCP gateways, all at once or one by one) reports every device of the bus exactly once, also if slave ids coincide, and nothing else; whatever is lost or damaged, there is exactly one answer, devices found before an interruption are reported, and a field of a device is either exactly what that very device (by its serial number) has or is absent with an error naming it; a read is tried up to three times unless refused. device/Probe does the same for a slave id, an empty answer meaning nobody. The configured type is given if and only if a polled device has that slave id and serial number. The line settings of the request are used and taken back, and polling goes on as before: a device not connected yet gets its setup before it is polled.",
     ["inputs", "faults", "histories"], "all sets of four kinds of devices x modes x commands x states of the polled device; up to two (thorough: three) faults of any kind at any exchange",
     "There are no tests of scanning with several devices and faults; the consequences for polling are seen only later",
     ["src/rpc/rpc_port_scan_serial_client_task.cpp", "src/rpc/rpc_port_scan_serial_client_task.h", "src/rpc/rpc_device_probe_task.cpp", "src/modbus_ext_common.cpp", "src/serial_device.cpp"],
     [("ExecRPCPortScanRequest / GetDeviceDetails", "src/rpc/rpc_port_scan_serial_client_task.cpp"), ("TRegisterReader::Read", "src/rpc/rpc_port_scan_serial_client_task.h"), ("Scan / TModbusTraits::Transaction", "src/modbus_ext_common.cpp"), ("TRPCDeviceProbeSerialClientTask::Run", "src/rpc/rpc_device_probe_task.cpp")],
     [("connection state", "a device not connected gets its setup before polling", "src/serial_device.h"), ("serial number", "of the polled device, cleared on connection", "src/serial_device.h")],
     ["RPC answers", "frames of the scan", "polling afterwards"])

if __name__ == "__main__":
    P.sort(key=lambda p: p["id"])
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
