"""What each check is made of"""
MC = ["mc/mc.cpp"]
VC = MC + ["mc/vclock.cpp"]
TECH = "stateless model checking of the real code: bounded exhaustive enumeration against a reference model"
CHECKS = {}
CHECKS["P01"] = {
    "bins": [{"src": ["harness/h_plan.cpp"] + MC}],
    "level": "model_checking",
    "technique": TECH + " (operation sequences with explicit-state pruning)",
    "note": "Every sequence of operations of the alphabet up to the depth; timing constants are a small set of representatives",
    "explanation": "All sequences of scheduler operations up to the depth on the real TScheduler, each step compared with an independent reference.",
}
CHECKS["P22"] = {
    "bins": [{"src": ["harness/h_utils.cpp"] + MC, "flavour": "asan"}],
    "level": "exploration",
    "technique": TECH + " (inputs)",
    "note": "Complete within the alphabets and lengths; longer inputs are covered only by the locality of the algorithms",
    "rule": "complete enumeration of bounded inputs (all byte strings of the stated lengths over the stated alphabets, all numbers of the stated widths); non-trivial: the input exercises the conversion (for stuffing: contains a byte to be escaped)",
}
CHECKS["P23"] = {
    "bins": [{"src": ["harness/h_utils.cpp"] + MC, "flavour": "fast"}],
    "level": "exploration",
    "technique": TECH + " (inputs)",
    "note": "Complete over the version and character class sets",
    "rule": "all pairs of a version set covering releases, candidates and +wb builds, all triples of a set with malformed versions, all strings up to 6 characters over 12 character classes; non-trivial: versions compared / names that need conversion",
}


def world(pid, src, seconds, note, expl, **kw):
    CHECKS[pid] = dict({
        "bins": [{"src": ["harness/" + src] + VC, "seconds": seconds}],
        "level": "model_checking",
        "technique": TECH + " (whole port thread in virtual time)",
        "note": note, "explanation": expl,
    }, **kw)


world("P03", "h_write.cpp", 60,
      "Exhaustive over the stated commands, moments, faults and configurations; the port thread is driven cycle by cycle in virtual time",
      "Every combination of configuration, fault scenario, commands, moments and texts is run from MQTT to the bus on the real code; an oracle replays the history of accesses and publications.")
world("P04", "h_conn.cpp", 60,
      "Exhaustive over phase lengths, limits and kinds of failures of the set; at exactly device_timeout_ms either behaviour is accepted",
      "Every history of good and bad phases is run on the real port thread; a reference state machine fed with the accesses predicts every state change and pause.")
world("P09", "h_setup.cpp", 60,
      "Exhaustive over the subsets of items, options and a single fault",
      "Every subset and order of setup items with each fault is run on the real code against simulated devices; their registers are compared at the first poll.")
CHECKS["P14"] = {
    "bins": [{"src": ["harness/h_conn.cpp"] + VC}],
    "level": "model_checking",
    "technique": TECH + " (operation sequences)",
    "note": "Exhaustive over the sequences; at exactly the time limit either decision is accepted",
    "explanation": "All sequences of cycles on the real TPortOpenCloseLogic in virtual time against a reference.",
}

world("P02", "h_live.cpp", 60,
      "Exhaustive over the combinations; the bound on the pause is 12 s plus 8 s per neighbour with min_request_interval and 3 s per neighbour with a long response timeout; spinning shorter than 250 ms is not reported",
      "Every combination of neighbours is run for 50 s of virtual time on the real port thread against simulated devices; pauses between reads of every readable register are measured.")

world("P05", "h_suspend.cpp", 60,
      "Exhaustive over the sequences; requests arrive between the cycles or in the pauses of the port thread (real concurrency is the subject of P24)",
      "Every sequence of suspend/resume requests and disturbances is run on the real port thread; accesses are compared with the spans of suspension.")

world("P13", "h_pub.cpp", 60,
      "Exhaustive over the sequences; reads by polling (events are the subject of P11); controls with a refused write are not included",
      "Every sequence of outcomes of reads is run on the real port thread up to the MQTT stand-in; a reference predicts value, error and number of publications after each read.")

CHECKS["P06"] = {
    "bins": [{"src": ["harness/h_codec.cpp"] + VC}],
    "level": "model_checking",
    "technique": TECH + " (every disturbance of an exchange)",
    "note": "Exhaustive over the disturbances listed; the echo of write requests is not claimed to be compared",
    "explanation": "Every disturbed answer of the set is given to the real protocol code; a reference judge decides what has to happen, and the following good exchanges must recover.",
}

world("P07", "h_read.cpp", 60,
      "Exhaustive over the layouts, limits and behaviours of the set; a refused single bit register (they are tried in groups) and registers refused after they have been read are not included",
      "Every layout is polled by the real port thread against a simulated device whose registers change; each request is checked against the limits and each shown value against a reference decoder.")

world("P08", "h_wreg.cpp", 60,
      "Exhaustive over the kinds and sequences; multi-word holding_single registers with bit offsets or little endian words (unsupported by documentation) and partial registers with another write_address are not included",
      "Every sequence of writes is run from MQTT to a simulated device whose whole memory is compared with a reference after each step.")

CHECKS["P15"] = {
    "bins": [{"src": ["harness/h_port.cpp"] + VC}],
    "level": "model_checking",
    "technique": TECH + " (arrival schedules, operation sequences, failing system calls)",
    "note": "Exhaustive over the pauses, lengths and sequences; between the timeout and the timeout plus the documented latency either decision is accepted",
    "explanation": "The real ports run on simulated system calls in virtual time; every schedule of arriving bytes and every failing call is tried.",
}

CHECKS["P10"] = {
    "bins": [{"src": ["harness/h_value.cpp"] + VC}],
    "level": "exploration",
    "technique": TECH + " (inputs)",
    "note": "All contents of 8 and 16 bits (the latter without rounding), boundary patterns of the wider ones; BCD numbers with too many digits, NaN and infinity of floating point registers are not claimed",
    "rule": "complete enumeration of formats x scales x offsets x roundings x contents, and of texts x formats x conversions; non-trivial: a conversion with scale, offset or rounding, or a number written",
}

world("P11", "h_events.cpp", 60,
      "Exhaustive over the changes, faults and life events of the set; string registers with events and a device whose events never end (which starves events of others) are not claimed",
      "The real port thread exchanges event packets with simulated Fast Modbus devices; every fault and every event of life is tried, and the MQTT controls are compared with the devices.")

CHECKS["P18"] = {
    "bins": [{"src": ["harness/h_templates.cpp"] + MC, "seconds": 60}],
    "level": "model_checking",
    "technique": TECH + " (histories of requests, crash points, failing file operations)",
    "note": "Exhaustive over the histories and points of the set; durability after the acknowledgment and the late events of the directory watcher are not claimed",
    "explanation": "Every history of requests runs the real handlers on a scratch directory; file operations are intercepted, fail or crash at every point, and a restarted instance is compared with the reference.",
}

CHECKS["P16"] = {
    "bins": [{"src": ["harness/h_expr.cpp"] + MC}],
    "level": "exploration",
    "technique": TECH + " (inputs)",
    "note": "Exhaustive up to the lengths given; a bare undefined parameter as an operand of && and ||, numbers beyond 32 bits and unlimited nesting are not claimed",
    "rule": "complete enumeration of texts up to a length over the alphabet of characters and of tokens x values of the parameters; non-trivial: an accepted text with an operator",
}

CHECKS["P17"] = {
    "bins": [{"src": ["harness/h_config.cpp"] + VC, "seconds": 100}, {"src": ["harness/h_config.cpp"] + VC, "flavour": "asan", "seconds": 60}],
    "level": "exploration",
    "technique": TECH + " (inputs)",
    "note": "Exhaustive over the combinations of the set; the JSON schema validator is a stand-in for that of libwbmqtt, conditions of subdevice channels' own entries are not claimed",
    "rule": "complete enumeration of templates x configurations of the set, each loaded by the real loader and compared with a reference merge; non-trivial: a condition, an override, a subdevice or an old format takes effect",
}

CHECKS["P20"] = {
    "bins": [{"src": ["harness/h_fw.cpp"] + VC, "seconds": 60}],
    "level": "model_checking",
    "technique": TECH + " (histories of requests, faults of the exchange and of the release server)",
    "note": "Exhaustive over the operations, sizes and faults of the set (one or two faults per operation); answers that come after the timeout and could be taken for the answer to a repeated block are not included",
    "explanation": "The real RPC handler and tasks flash a simulated device (firmware, bootloader, components) with every fault at every request; the accesses are followed by a reference course, the device's memory and the published state are compared with it.",
}

CHECKS["P19"] = {
    "bins": [{"src": ["harness/h_rpc.cpp"] + VC, "seconds": 240}],
    "level": "model_checking",
    "technique": TECH + " (requests, memory contents, faults of the exchange, histories)",
    "note": "Exhaustive over the requests, device types, states and faults of the set; three operations per history; requests are executed one at a time",
    "explanation": "The real RPC handlers, task runner, driver and configuration loader serve requests to two simulated ports; each answer is compared with the memory of the simulated device at that moment, each write with the request, and the state of polling afterwards with that before.",
}

CHECKS["P24"] = {
    "bins": [{"src": ["harness/h_threads.cpp", "mc/mc.cpp", "mc/race.cpp"], "flavour": "race", "seconds": 60}],
    "level": "model_checking",
    "technique": "stateless model checking of the real threads under a controlled scheduler (deviation-bounded), with a happens-before race detector in each execution",
    "note": "Exhaustive up to the number of deviations from the round-robin order; memory accesses inside of libjsoncpp and libstdc++ aren't watched; the stand-in of MQTT handles messages and removes devices under one lock, as the event thread of libwbmqtt does; weak memory orders aren't simulated",
    "explanation": "The real driver, ports' threads, RPC handlers, task executors and template map run as real threads of which one runs at a time; the explorer decides at every synchronisation which one goes on. Each execution is judged by the race detector, by detection of deadlocks and by the answers and the memory of the simulated devices.",
}

CHECKS["P12"] = {
    "bins": [{"src": ["harness/h_scan.cpp"] + VC, "seconds": 90}],
    "level": "model_checking",
    "technique": TECH + " (sets of devices, faults of every exchange)",
    "note": "Exhaustive over the sets of four kinds of devices and up to two faults; arbitration on the bus is simulated by its result (prefix of 0xFF bytes, the lowest serial number wins)",
    "explanation": "The real scan and probe tasks run against simulated Fast Modbus devices; each field of the answer is compared with the device that has that serial number and with the fate of its reads, and polling afterwards with the setup of the device.",
}

CHECKS["P21"] = {
    "bins": [{"src": ["harness/h_drivers.cpp"] + VC, "seconds": 60}, {"src": ["harness/h_drivers.cpp"] + VC, "flavour": "asan", "seconds": 60}],
    "level": "model_checking",
    "technique": TECH + " (every disturbance of an exchange, all pairs of commands)",
    "note": "Exhaustive over the disturbances and devices of the set; late answers to reads of a_ok, dooya, windeco and ivtm, which name no register, aren't told from answers to the next request; dlms and iec_mode_c meters are not included",
    "explanation": "The real drivers poll and command simulated devices of their protocols; each disturbance is tried at each exchange, every published value is compared with those the register has had, the state of the device with the last commands.",
}
