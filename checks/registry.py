CHECKS = {
 "C01": ("c_alp", "c01", "exploration", "commands sampled from the exported layouts: every field of every action swept over its interesting values, random multi-action commands, all factories; non-trivial = the encoder returned octets that TLC compared with the specification's encoding"),
 "C02": ("c_alp", "c02", "exploration", "octet strings encoded from sampled commands (field sweeps, random reserved bits and length codings, tag/status at any position); non-trivial = TLC's decoder accepts the octets and compared every field"),
 "C03": ("c_alp", "c03", "exploration", "all truncations and single-octet mutations of sampled commands, illegal field values, duplicates, random octets; non-trivial = TLC's decoder rejects the octets"),
 "C04": ("c_alp", "c04", "exploration", "sampled commands and octet strings pushed through both directions; non-trivial = a round trip was completed and compared"),
}
_S = "histories of parse/build calls on the real serial parser, each checked call by call by TLC as a behaviour of Serial.tla; the model itself is checked over all segmentations of all short streams; non-trivial = distinct histories; "
CHECKS.update({
 "C05": ("c_serial", "c05", "model_checking", _S + "frames of every type, counter and length, damaged, truncated, nested, garbage"),
 "C06": ("c_serial", "c06", "model_checking", _S + "all segmentations of the model's short streams, random segmentations of long ones"),
 "C07": ("c_serial", "c07", "model_checking", _S + "arbitrary octets, every first payload octet, long garbage"),
 "C08": ("c_serial", "c08", "model_checking", "error detection of the checksum proved on the model for every error position (single, double, odd, bursts up to 16); the code's checksum compared for all payload lengths and all single bits; damaged frames replayed; non-trivial = distinct damaged streams"),
 "C09": ("c_serial", "c09", "model_checking", _S + "long build histories with wrap-around, interleaved receptions, what was built received by another parser"),
 "C10": ("c_serial", "c10", "model_checking", _S + "all short counter histories over critical values, all successor pairs, long lossy histories"),
 "C32": ("c_serial", "c32", "model_checking", "histories of two real parsers joined by a line that loses and damages frames and cuts arbitrarily, in one or both directions, each validated by TLC against Link.tla, which the octet-level receiver is model checked to refine; non-trivial = distinct histories in which commands were delivered"),
 "C11": ("c_serial", "c11", "model_checking", _S + "raw mode: payloads of every length and type, arbitrary streams in both modes"),
})

_M = "runs of the real Modem class under a controlled scheduler (random preemption and every single preemption point of base scenarios), each validated by TLC as a behaviour of Modem.tla; the model itself is checked exhaustively for small histories; non-trivial = distinct event sequences; "
CHECKS.update({
 "C12": ("c_modem", "c12", "model_checking", _M + "successive synchronous executions with early, partial, foreign, completing and late responses"),
 "C13": ("c_modem", "c13", "model_checking", _M + "messages of every kind with callbacks set or not, connecting, clearing and executing meanwhile"),
 "C14": ("c_modem", "c14", "model_checking", _M + "responses about the timeout and after the end of executions, failing sends"),
 "C15": ("c_modem", "c15", "model_checking", _M + "several sending threads, pairs of preemptions, wrap-around of the frame number"),
 "C16": ("c_modem", "c16", "model_checking", _M + "arbitrary octets, read and reopen failures, stopping and starting"),
 "C29": ("c_modem", "c29", "model_checking", "runs of the real gateway (tools/modem2mqtt.py) with a recorded broker under a controlled scheduler, each validated by TLC as a behaviour of Modem.tla in raw mode; non-trivial = distinct event sequences; arbitrary payloads, damaged frames, failing publications, read failures, stopping and starting"),
 "C17": ("c_modem", "c17", "model_checking", _M + "connect histories with complete, partial, foreign, late and missing identification"),
})
_F = "values and octet strings sampled from the exported layouts (every field swept over its interesting values, illegal values, truncations, mutations) put through the real code and judged by TLC; non-trivial = "
CHECKS.update({
 "C26": ("c_objects", "c26", "model_checking", "random histories of creating, extending, looking at, parsing and dropping commands, actions, files, structures, frames and registries, observed after every operation, and interleaved histories of several serial parsers, each validated by TLC; non-trivial = distinct histories in which commands were extended while other objects were alive"),
 "C28": ("c_alp", "c28", "exploration", "commands built and decoded, every field swept, with and without interface status and tag, stored as JSON and restored; non-trivial = restored and compared field by field and octet by octet"),
 "C18": ("c_struct", "c18", "exploration", "data link frames: all flag combinations, every field of every layer swept, truncated, padded, mutated and unsupported frames; non-trivial = a frame came out and was compared layer by layer"),
 "C19": ("c_struct", "c19", "exploration", "frames decoded and serialised, and frames built and serialised, then decoded again; non-trivial = the whole round trip was completed and compared"),
 "C20": ("c_struct", "c20", "exploration", _F + "the octets were accepted and every field compared"),
 "C21": ("c_struct", "c21", "exploration", _F + "octets came out and were compared with the specification's encoding"),
 "C22": ("c_struct", "c22", "exploration", "every field of every structure, file, action and frame just inside and outside its range; non-trivial = the value was refused"),
 "C23": ("c_struct", "c23", "model_checking", "all 256 compressed values, durations about every representable value (thorough: every duration), both roundings, against the model whose properties TLC checks; non-trivial = compared batches"),
 "C24": ("c_struct", "c24", "model_checking", "every channel with a text form at critical indices (thorough: every index), valid and damaged texts, against the model whose injectivity TLC checks; non-trivial = a text that was read and compared"),
 "C25": ("c_struct", "c25", "exploration", "returned data for every file number, length and offset: content encoded from the layouts, truncated, padded, mutated, illegal; non-trivial = the content was interpreted and compared"),
 "C30": ("c_display", "c30", "exploration", "families of objects that differ in one field (every field of every structure, file, action; commands and frames decoded from octets), looked at through text, dictionary and comparison; non-trivial = families compared pair by pair"),
 "C31": ("c_struct", "c31", "model_checking", "streams of one to six frames, whole, truncated or with garbage behind, cut into calls in every way (short frames) or at random, and octet by octet, validated call by call as behaviours of the model whose invariants TLC checks; non-trivial = distinct streams in which several frames were delivered"),
 "C27": ("c_struct", "c27", "exploration", "the whole registry, and read and write commands for every registered file, plain and forwarded; non-trivial = the command was built and compared octet by octet"),
})

_G = ("The specification (spec/*.tla) is the oracle; what it does not say (listed as unspecified in DESIGN.md) is not judged. "
      "The code runs unmodified under Jython; exploration is seeded and bounded. ")
TECHNIQUE = {
 "C01": "TLA+ codec specification; TLC judges recorded encodings (trace validation)",
 "C02": "TLA+ codec specification; TLC judges recorded decodings (trace validation)",
 "C03": "TLA+ codec specification; TLC judges recorded decodings of malformed octets (trace validation)",
 "C04": "TLA+ codec specification; TLC judges recorded round trips (trace validation)",
 "C05": "TLA+ state machine of the receiver, model checked with TLC; recorded parser histories validated against it",
 "C06": "TLA+ receiver model checked over all segmentations; all segmentations replayed on the parser and validated",
 "C07": "TLA+ receiver invariants model checked; recorded parser histories validated against it",
 "C08": "error detection of the checksum checked in TLA+ for all positions; recorded checksums and damaged-frame histories validated",
 "C09": "TLA+ sender model; recorded build histories validated by TLC",
 "C10": "TLA+ receiver counters; recorded counter histories validated by TLC",
 "C11": "TLA+ receiver in raw mode; recorded histories validated by TLC",
 "C32": "TLA+ model of the link, refinement by the receiver model checked with TLC; recorded histories of two joined parsers validated by TLC",
 "C12": "TLA+ model of the modem checked with TLC; recorded runs of the real class under a controlled scheduler validated as its behaviours",
 "C13": "TLA+ model of the modem checked with TLC; recorded runs of the real class under a controlled scheduler validated as its behaviours",
 "C14": "TLA+ model of the modem checked with TLC; recorded runs of the real class under a controlled scheduler validated as its behaviours",
 "C15": "TLA+ model of the modem checked with TLC; recorded runs of the real class under a controlled scheduler validated as its behaviours",
 "C16": "TLA+ model of the modem checked with TLC; recorded runs of the real class under a controlled scheduler validated as its behaviours",
 "C17": "TLA+ model of the modem checked with TLC; recorded runs of the real class under a controlled scheduler validated as its behaviours",
 "C29": "TLA+ model of the modem (raw mode) checked with TLC; recorded runs of the real gateway under a controlled scheduler validated as its behaviours",
 "C18": "TLA+ frame specification; TLC judges recorded decodings (trace validation)",
 "C19": "TLA+ frame specification; TLC judges recorded round trips (trace validation)",
 "C20": "TLA+ layouts; TLC judges recorded decodings (trace validation)",
 "C21": "TLA+ layouts; TLC judges recorded encodings and round trips (trace validation)",
 "C22": "TLA+ layouts decide which values are representable; TLC judges recorded acceptances (trace validation)",
 "C23": "TLA+ model of the compression, model checked over all durations; recorded compressions validated by TLC",
 "C24": "TLA+ model of the text forms, model checked for unambiguity; recorded readings and writings validated by TLC",
 "C25": "TLA+ specification of what is recognised; TLC judges recorded interpretations (trace validation)",
 "C26": "TLA+ model of independent objects, model checked; recorded histories validated by TLC as its behaviours",
 "C28": "TLA+ codec specification; TLC judges commands stored and restored (trace validation)",
 "C30": "TLA+ specification of what is shown; TLC judges recorded texts, dictionaries and comparisons of families of objects (trace validation)",
 "C31": "TLA+ model of the frame stream, model checked; recorded histories validated by TLC as its behaviours",
 "C27": "TLA+ registry table; TLC judges the recorded registry and commands (trace validation)",
}
NOTE = {
 "C01": _G + "Commands are sampled from the exported layouts: every field swept over boundary values, not all combinations.",
 "C02": _G + "Octet strings are sampled from the exported layouts: every field swept, random reserved bits and length codings.",
 "C03": _G + "All truncations and single-octet changes of sampled commands; octet strings whose meaning is unspecified are not judged.",
 "C04": _G + "Commands with an interface status are a known finding: there only the exact octets emitted are checked.",
 "C05": _G + "Streams up to a few thousand octets.",
 "C06": _G + "All segmentations for streams up to 10 octets (13 thorough), sampled ones for longer streams.",
 "C07": _G + "Termination is observed with a time limit.",
 "C08": _G + "Detection is a fact about the specified checksum for payloads up to 255 octets; the code's checksum is compared on all lengths and all single-bit payloads of 255 octets.",
 "C09": _G + "Histories up to 600 frames (3000 thorough), i.e. several wrap-arounds.",
 "C10": _G + "The count is judged on streams of intact frames only, as stated.",
 "C11": _G + "The modem's raw mode is judged with C13.",
 "C12": _G + "Preemption at line granularity of modem.py and the serial parser; one synchronous execution at a time; time is virtual.",
 "C13": _G + "Preemption at line granularity of modem.py and the serial parser; one synchronous execution at a time; time is virtual.",
 "C14": _G + "Preemption at line granularity of modem.py and the serial parser; one synchronous execution at a time; time is virtual.",
 "C15": _G + "Preemption at line granularity of modem.py and the serial parser; one synchronous execution at a time; time is virtual.",
 "C16": _G + "Preemption at line granularity of modem.py and the serial parser; one synchronous execution at a time; time is virtual.",
 "C17": _G + "Preemption at line granularity of modem.py and the serial parser; one synchronous execution at a time; time is virtual.",
 "C29": _G + "The broker connection and the logger set-up are stand-ins; messages received before the broker is connected are not judged.",
 "C18": _G + "The checksum of a frame is not validated by the code and not judged.",
 "C19": _G + "Frames carrying an interface status are not serialised here (finding of C04).",
 "C20": _G + "Every field swept, not all combinations.",
 "C21": _G + "Every field swept, not all combinations.",
 "C22": _G + "Integers only; every field about its limits and at random values outside.",
 "C23": _G + "Quick: durations about every representable value; thorough: all of them.",
 "C24": _G + "Blanks and signs in the index, and anything behind a header, are unspecified.",
 "C25": _G + "Fields swept, not all combinations.",
 "C26": _G + "Attributes assigned by the program itself and lists changed after passing them to a constructor are not covered.",
 "C28": _G + "With the installed jsonpickle.",
 "C30": _G + "The wording of texts is not specified; fields that texts leave out are listed in Display.tla.",
 "C32": _G + "Damage that introduces another sync octet is turned into a loss.",
 "C31": _G + "What follows a malformed frame is not judged.",
 "C27": _G + "The table of files in Registry.tla is the oracle.",
}
NOT_APPLICABLE = {}
