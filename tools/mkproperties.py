import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","ALP commands serialise to the octets the ALP format assigns",
 "Every ALP command that can be built with the public action/operand classes, the command creation helpers or by adding actions serialises to exactly the octets the ALP format assigns to it: first the tag request (if the command generates one, with the respond-when-completed bit and its tag), then every action in order, each as flag bits and opcode followed by its operand fields, with offsets and lengths in the shortest of the 1, 2, 3 and 4 octet codings. Iterating a command yields integers 0..255 only, and serialising the same command again yields the same octets. A command for a remote interface starts with the matching forward action and that interface's configuration.",
 ["inputs","programs"],"all commands: every supported action, every combination of flags, all operand values in range, any number of actions, any interface configuration",
 "the tests compare a few hand-written octet lists per class; operand boundaries (63/64, 16383/16384, 4194303/4194304), flag combinations, wide integers and action sequences are a product space they only sample, and only a few actions are covered in combination",
 ["d7a/alp/command.py","d7a/alp/regular_action.py","d7a/alp/forward_action.py","d7a/alp/indirect_forward_action.py","d7a/alp/operands","d7a/alp/operations","d7a/sp","d7a/d7anp/addressee.py","d7a/fs"],
 [("Command.__iter__","d7a/alp/command.py"),("Length.__iter__","d7a/alp/operands/length.py"),("Operation.__iter__","d7a/alp/operations/operation.py"),("create_with_* / add_forward_action","d7a/alp/command.py")],
 ["list(command)","bytearray(command)"])

p("C02","Decoding a well-formed ALP command yields exactly the encoded values",
 "Decoding the octets of any well-formed ALP command made of supported actions succeeds, consumes exactly the given length, and yields exactly what was encoded: the tag and whether it came with a request or a response (respond flag, end-of-packet, error), the interface status, and all other actions in order with every flag and operand field equal to the encoded value. A response is reported as completed exactly when its tag response carries the end-of-packet flag. Any decoded command can be printed.",
 ["inputs"],"all octet strings that are well-formed ALP commands, including non-minimal length codings and set reserved bits that decoders ignore",
 "tests decode a few dozen fixed messages; they do not vary field values across their ranges, flags, id types, length coding sizes or multi-action sequences",
 ["d7a/alp/parser.py","d7a/alp/command.py","d7a/alp/operands","d7a/sp","d7a/d7anp/addressee.py","d7a/fs","d7a/phy"],
 [("Parser.parse / parse_alp_action","d7a/alp/parser.py"),("Command.__init__ classification of actions","d7a/alp/command.py")],
 ["alp Parser.parse(stream, length)","attributes of the returned Command","str(command)"])

p("C03","Octets that are not a well-formed ALP command are never accepted",
 "Decoding octets that are not a well-formed ALP command fails with an error instead of returning a command: when the octets end inside an action, when an opcode, reserved status type, query type, interface or enumerated field value is not supported, when a bit that must be zero (forward, tag request) is set, or when a second tag or a second interface status occurs. No prefix, suffix or single-octet change of a valid command is accepted unless it is itself a well-formed command.",
 ["inputs"],"all octet strings up to the maximum payload size",
 "a test can only try a handful of malformed inputs; every truncation point and every illegal field value of every action must be rejected",
 ["d7a/alp/parser.py","d7a/alp/command.py","d7a/alp/operands","d7a/sp","d7a/d7anp/addressee.py"],
 [("opcode dispatch and RFU checks","d7a/alp/parser.py"),("enum construction and Validatable.validate","d7a/support/schema.py"),("duplicate tag/status checks","d7a/alp/command.py")],
 ["alp Parser.parse raises"])

p("C04","Encoding and decoding of commands are inverse",
 "Serialising any command made of actions the decoder supports and decoding the octets gives a command with the same tag, respond flag, interface status and actions. Decoding well-formed octets and serialising the decoded actions gives the canonical encoding of the same actions (shortest length codings, reserved bits zero), from which decoding again yields the same command.",
 ["inputs"],"all commands over the decodable actions; all well-formed octet strings",
 "tests check either direction on single examples; agreement of the two independent code paths for every field value cannot be enumerated by examples",
 ["d7a/alp/parser.py","d7a/alp/command.py","d7a/alp/operands","d7a/alp/operations"],
 [("Command.__iter__","d7a/alp/command.py"),("Parser.parse","d7a/alp/parser.py")],
 ["parse(list(cmd))","list(parse(octets))"])

p("C05","The serial receiver delivers exactly the intact frames, once and in order",
 "From any octet stream the serial frame parser delivers exactly the messages of the frames found by scanning from left to right: a frame starts at sync octet 0xC0 followed by version 0, carries counter, type, length and CRC-16/CCITT (initial value 0xFFFF) over its payload, and is delivered when CRC and payload are valid. After anything else the scan resumes at the next 0xC0 behind the rejected start octet, so that no intact frame following garbage or a damaged frame is lost; each delivered message is paired with its own frame's type and decoded from its own payload only: an ALP command, the text of a log message, or the reboot reason.",
 ["inputs","fault_sequences"],"all octet streams: frames of every type and size, interleaved with garbage, truncated, corrupted, duplicated or nested frames",
 "tests feed a few streams with one or two frames; resynchronisation after arbitrary corruption (sync octets inside payloads, truncated frames followed by valid ones, bad payloads with a good CRC) is a history property",
 ["d7a/serial_modem_interface/parser.py","d7a/support/Crc.py"],
 [("parse_buffer / parse_one_command_from_buffer","d7a/serial_modem_interface/parser.py"),("skip_bad_buffer_content","d7a/serial_modem_interface/parser.py"),("calculate_crc","d7a/support/Crc.py")],
 ["return value of Parser.parse"],[("buffer","octets received and not yet consumed","Parser.buffer")])

p("C06","Message delivery does not depend on how the stream is cut into reads",
 "For any octet stream, the sequence of delivered messages and their types, the octets skipped in total and the octets still buffered at the end are the same however the stream is cut into successive parse calls, including one octet at a time and all at once. A message is delivered by the call that supplies the last octet of its frame.",
 ["inputs","schedules"],"all octet streams and all ways to cut them into non-empty chunks",
 "the number of segmentations is exponential in the stream length; tests cover a frame cut at one place",
 ["d7a/serial_modem_interface/parser.py"],
 [("buffering of incomplete frames","d7a/serial_modem_interface/parser.py")],
 ["concatenated results of Parser.parse over chunks"],[("buffer","octets received and not yet consumed","Parser.buffer")])

p("C07","The serial receiver is total and accounts for every octet",
 "Parsing any chunk of any octets in any state returns normally, never raises and never loops. Every received octet is accounted for exactly once: as part of a delivered frame (reported as parsed bits), as skipped (reported per error with the number of skipped octets), or as still buffered (reported as buffered bits). What stays buffered is always a proper prefix of one frame and hence shorter than the largest frame (262 octets), and a parser with an empty buffer delivers the next intact frame whatever it received before.",
 ["inputs","histories","fault_sequences"],"all octet streams and chunkings, all parser states",
 "totality over arbitrary input and absence of unbounded buffering or lost octets cannot be shown by examples",
 ["d7a/serial_modem_interface/parser.py"],
 [("exception handling in parse_one_command_from_buffer","d7a/serial_modem_interface/parser.py"),("info accounting","d7a/serial_modem_interface/parser.py")],
 ["info returned by Parser.parse"],[("buffer","octets received and not yet consumed","Parser.buffer")])

p("C08","Damaged payloads are detected by the frame checksum",
 "The checksum of a serial frame is CRC-16/CCITT-FALSE (polynomial 0x1021, initial value 0xFFFF, no reflection, most significant octet first) over the payload, both when sending and when receiving, for payloads of every length from 0 to 255. A received frame whose payload or checksum was changed in any one, two or three bits or in any burst of at most 16 bits is reported as an error and never delivered as a message.",
 ["inputs","fault_sequences"],"all payloads, all error patterns of up to three bits or one burst of up to 16 bits in payload or checksum",
 "tests check one corrupted message; the detection guarantee quantifies over payloads and error patterns",
 ["d7a/support/Crc.py","d7a/serial_modem_interface/parser.py"],
 [("calculate_crc","d7a/support/Crc.py"),("CRC comparison","d7a/serial_modem_interface/parser.py")],
 ["calculate_crc","Parser.build_serial_frame","Parser.parse"])

p("C09","Sent frames are well-formed and consecutively numbered",
 "Every frame built for a command consists of 0xC0, version 0, a counter, message type 1 (ALP), the payload length, the CRC-16 of the payload (most significant octet first) and the command's octets, for payloads up to 255 octets. Counters of successive frames built by one parser start at 0 and increase by one modulo 256, without gaps or repetitions, independently of what is received. A frame built by one parser is received by another parser as the same command.",
 ["inputs","histories"],"all commands with up to 255 octets, all histories of builds and receptions of any length (including counter wrap-around)",
 "the counter is history state: wrap-around at 256 and independence from reception only show in long mixed histories",
 ["d7a/serial_modem_interface/parser.py"],
 [("build_serial_frame","d7a/serial_modem_interface/parser.py")],
 ["Parser.build_serial_frame"],[("up_counter","number of the next frame","Parser.up_counter")])

p("C10","Discontinuities of the receive counter are counted exactly",
 "On a stream of intact frames the parser's error counter equals the number of frames whose counter is not the successor (modulo 256) of the previous frame's counter, the first frame being compared with 1. Frames are delivered whatever their counter is, and after a discontinuity the numbering continues from the received counter.",
 ["histories"],"all sequences of frame counters of any length",
 "lost-frame detection is a property of counter histories, including wrap-around, repeated and skipped numbers",
 ["d7a/serial_modem_interface/parser.py"],
 [("down_counter/error_counter update","d7a/serial_modem_interface/parser.py")],
 ["Parser.error_counter after parse"],[("down_counter","last received counter","Parser.down_counter"),("error_counter","number of discontinuities","Parser.error_counter")])

p("C11","Raw mode hands over payloads verbatim",
 "A parser (or modem) created to skip ALP parsing delivers, for every intact frame that is not a reboot notification, exactly the octets of the payload, whatever they are, with the same framing, resynchronisation and ordering as in normal mode. Reboot notifications carry the reboot reason in both modes, and log messages are handed over verbatim in both modes.",
 ["inputs"],"all octet streams, chunkings and payload contents, valid as ALP or not",
 "tests do not exercise this mode beyond construction",
 ["d7a/serial_modem_interface/parser.py","modem/modem.py"],
 [("parse_payload","d7a/serial_modem_interface/parser.py")],
 ["Parser(skip_alp_parsing=True).parse"])

p("C12","A synchronous execution returns exactly its own responses",
 "Executing a command synchronously returns, in arrival order, exactly the responses carrying the command's tag that arrive after it was sent, up to and including the first one that completes the execution; it returns promptly once that one has arrived. Messages with another tag or without tag, whenever they arrive, are never returned and never end the execution, and a returned list does not change afterwards. This holds for every interleaving of the reader with the caller.",
 ["schedules","histories"],"all sequences of responses (own tag, other tags, untagged, completed or partial, log and reboot messages), all arrival times and thread interleavings, any number of successive executions",
 "there is no test of the modem class at all; the outcome depends on the interleaving of the reader thread and the calling thread",
 ["modem/modem.py","d7a/serial_modem_interface/parser.py"],
 [("execute_command / _add_sync_execution_response","modem/modem.py")],
 ["return value of Modem.execute_command"],[("sync window","tag and responses of the pending execution","Modem._sync_execution_*")])

p("C13","Every received message reaches exactly one destination, in order",
 "Every message the modem receives is handed to exactly one destination: responses that belong to the pending synchronous execution to its caller; other ALP messages to the unsolicited-response callback if one is set and the modem is connected, else to the list of unsolicited responses; reboot notifications to the reboot callback, else to the list of reboots; log messages and unknown types to none of these. Each destination sees its messages in order of arrival, none lost, none duplicated, and clearing a list removes only what arrived before.",
 ["schedules","histories"],"all message sequences, configurations (callbacks set or not, connected or not, raw mode or not), segmentations and interleavings with executing callers",
 "no test exercises the routing; it depends on state changed concurrently by callers",
 ["modem/modem.py"],
 [("_read_async routing","modem/modem.py")],
 ["callbacks","get_unsolicited_responses_received / get_rebooted_received","execute_command result"],
 [("connected","whether callbacks may be called","Modem.connected")])

p("C14","A synchronous execution ends in time and leaves nothing behind",
 "A synchronous execution whose completing response does not arrive within the timeout returns an empty list, not before the timeout has elapsed and shortly after it (within half a second), whatever else is received meanwhile. Responses arriving after the execution ended (timeout, completion or failure to send) are treated as unsolicited and never appear in the result of a later execution with another tag, and an asynchronous execution returns an empty list at once without waiting.",
 ["schedules","histories","fault_sequences"],"all timeouts, arrival times relative to the timeout, send failures, and sequences of executions",
 "time-outs and late responses are not tested; they depend on timing and on leftovers of earlier executions",
 ["modem/modem.py"],
 [("timeout loop and window closing","modem/modem.py")],
 ["Modem.execute_command","get_unsolicited_responses_received"])

p("C15","Concurrently sent commands are written as whole, consecutively numbered frames",
 "When several threads execute commands on one modem, the octets written to the serial device are a concatenation of whole frames, one per executed command and each containing that command's octets, never interleaved; each command is on the wire when its asynchronous execution returns. The frame counters are consecutive modulo 256 in the order in which the frames are written.",
 ["schedules"],"all interleavings of any number of sending threads and the reader",
 "mutual exclusion of build and write is only observable under particular interleavings",
 ["modem/modem.py","d7a/serial_modem_interface/parser.py"],
 [("lock around build and write","modem/modem.py")],
 ["octets written to the serial port"],[("lock","serialises senders","Modem.lock")])

p("C16","The modem keeps receiving whatever arrives, also across port failures",
 "The receiving thread survives any received octets and any failure of the serial port to read: after a read failure it closes and reopens the port, retrying until that succeeds, and messages received afterwards are delivered as usual, while messages delivered before remain delivered. Stopping ends the receiving thread, and receiving can be started again afterwards without losing octets buffered for an incomplete frame.",
 ["fault_sequences","inputs","histories"],"all octet streams, all sequences of read and reopen failures, all stop/start histories",
 "no test exercises the reader; its survival quantifies over inputs and fault sequences",
 ["modem/modem.py"],
 [("_read_async exception handling","modem/modem.py"),("start_reading/stop_reading","modem/modem.py")],
 ["messages delivered after a fault","stop_reading returns"])

p("C17","Connecting succeeds exactly when the node identifies itself",
 "Connecting with the alive check reads the UID and firmware version files in one command and returns True, marks the modem connected and exposes the UID as lower-case hexadecimal and the firmware version exactly when the response contains both; when the response lacks one of them or does not arrive within ten seconds it returns False and stays disconnected. Without the check (or in raw mode) the modem is connected at once, and connecting again while connected does nothing. Until the modem is connected no unsolicited-response callback is made.",
 ["inputs","histories"],"all UIDs, firmware versions, response contents, and histories of connect calls",
 "no test covers connecting; the outcome depends on response content and earlier attempts",
 ["modem/modem.py","d7a/system_files/uid.py","d7a/system_files/firmware_version.py"],
 [("Modem.connect","modem/modem.py")],
 ["return value of connect","Modem.uid / firmware_version / connected"])

p("C18","DLL frames decode to the fields on the air",
 "Parsing any well-formed foreground or background DLL frame yields exactly the fields it carries: length, subnet, control (target id type, EIRP index or tag), target address, network layer control, origin access class and address, transport control, dialog and transaction id, the optional target level, listen, execution and congestion times exactly when announced, the ALP command and the CRC. A frame that is not complete yields no frame; unsupported options (hopping, network security, acknowledgement templates) are refused with an error.",
 ["inputs"],"all frames: every combination of control flags, id types, field values, and ALP payloads; all truncations",
 "tests parse a few captured frames; optional fields and address types combine exponentially",
 ["d7a/dll/parser.py","d7a/dll/foreground_frame.py","d7a/dll/background_frame.py","d7a/d7anp/frame.py","d7a/d7anp/control.py","d7a/d7atp/frame.py","d7a/d7atp/control.py"],
 [("Parser.parse_one_frame_from_buffer","d7a/dll/parser.py"),("Frame.parse per layer","d7a/d7atp/frame.py")],
 ["dll Parser(FrameType).parse"])

p("C19","DLL frames serialise back to their octets",
 "A foreground or background DLL frame obtained by parsing, or built from its parts, serialises to exactly the octets of that frame at every layer (DLL, network and transport), with reserved bits zero and the ALP command in canonical form; parsing those octets again yields an equal frame.",
 ["inputs"],"all frames as for C18",
 "tests cover almost no frame serialisation",
 ["d7a/dll","d7a/d7anp/frame.py","d7a/d7anp/control.py","d7a/d7atp/frame.py","d7a/d7atp/control.py"],
 [("__iter__ of the frame classes","d7a/dll/foreground_frame.py")],
 ["list(frame)"])

p("C20","System files and protocol structures decode to their stored values",
 "Parsing the content of any supported system file (UID, factory settings, firmware version, engineering mode, VID, PHY status, DLL config and status, security and authentication keys, access profile) or of any stand-alone structure (compressed time, addressee, QoS, session configuration and status, channel header/id/status, subband, subprofile, file header) yields exactly the values at their defined positions, with the defined sign and byte order. Content that is too short or holds an undefined enumeration value is refused with an error.",
 ["inputs"],"all contents of each file and structure, all truncations",
 "only half of the files have any test, each with one or two values",
 ["d7a/system_files","d7a/phy","d7a/dll/access_profile.py","d7a/fs","d7a/sp","d7a/d7anp/addressee.py","d7a/types/ct.py"],
 [("parse of each file class","d7a/system_files")],
 ["<File>.parse(stream)"])

p("C21","System files and protocol structures serialise to their defined layout",
 "Serialising any supported system file or stand-alone structure yields exactly its defined octets, every field at its position with the defined sign and byte order and reserved bits zero, and parsing those octets gives back the same values. Files of fixed size serialise to exactly the size they declare.",
 ["inputs"],"all field values in range for each file and structure",
 "as for C20; round trips are tested for a few values only",
 ["d7a/system_files","d7a/phy","d7a/dll","d7a/fs","d7a/sp","d7a/d7anp/addressee.py","d7a/types/ct.py"],
 [("__iter__ of each class","d7a/system_files")],
 ["list(file)","<File>.parse(list(file))"])

p("C22","Values a field cannot carry never reach the wire",
 "Building a protocol object (operands, addressee, channel and profile descriptors, file header, interface configuration, system files, frame control fields) with a number outside the range of its field, with something of another kind (nothing, text, a fraction, a list, a value of another enumeration) in its place, or an addressee whose identifier does not fit its id type, is refused with an error when the object is built, or at the latest (LoRaWAN settings) when it is converted to octets. Every value inside the range, including both bounds, is accepted.",
 ["inputs"],"all fields of all classes, values below, at and above both bounds",
 "tests try one invalid value for a few classes",
 ["d7a/support/schema.py","d7a/alp/operands","d7a/d7anp/addressee.py","d7a/phy","d7a/system_files","d7a/types/ct.py"],
 [("Validatable.validate and SCHEMA","d7a/support/schema.py")],
 ["constructors raise"])

p("C23","Compressed time keeps its value, and compression rounds as asked",
 "A compressed time with exponent e and mantissa m denotes 4^e * m; its octet is e in the upper three and m in the lower five bits, and decompressing, converting to an integer and parsing its octet agree. Compressing a duration from 0 to 507904 uses the smallest exponent that can hold it and gives, when rounding up, the smallest representable value of that exponent not below the duration, and when rounding down the largest not above it, so representable durations of minimal exponent come back exactly; larger durations are not compressed.",
 ["inputs"],"all 256 compressed values, all durations, both rounding modes",
 "tests check a handful of values",
 ["d7a/types/ct.py"],
 [("CT.compress / decompress","d7a/types/ct.py")],
 ["CT.compress","CT.decompress","int(ct)","list(ct)"])

p("C24","The text form of a channel identifies the channel",
 "Writing a channel header or channel id as text and reading that text back gives the same channel, for every band, class, coding and channel index that has a text form, and two different channels never have the same text. Text that does not denote a channel is refused with an error. The same holds for the parts of a channel's text (its band, class and coding) and for the names of engineering modes.",
 ["inputs"],"all channel headers and indices 0..65535",
 "tests convert a few channels",
 ["d7a/phy/channel_header.py","d7a/phy/channel_id.py","d7a/system_files/engineering_mode.py"],
 [("__str__/from_string","d7a/phy/channel_id.py")],
 ["str(channel)","from_string(text)"])

p("C25","Returned data of system files is interpreted only when it is that file's content",
 "Returned file data is presented as the parsed content of a system file exactly when it comes from a system file id that has a parser, starts at offset 0, is not longer than the file, and parses; the parsed content then equals the values in the data. In every other case no interpretation is attached, and the data itself is unaffected.",
 ["inputs"],"all file ids, offsets, lengths and contents",
 "tests check one or two files at offset 0",
 ["d7a/alp/operations/responses.py","d7a/system_files/system_files.py"],
 [("try_parse_system_file","d7a/alp/operations/responses.py")],
 ["operation.systemfile_type / file_data_parsed","str(action)"])

p("C26","Objects are independent of each other and of their inputs' reuse",
 "Building, extending, serialising, parsing or printing any number of commands, actions, files, configurations and parsers in any order never changes the octets or field values of any other object built before or after: default values are never modified and no state is shared between parser or command instances. Only operations on an object itself (such as adding an action to a command) change it.",
 ["histories","programs"],"all sequences of API calls on several objects",
 "shared mutable defaults and class-level state only show in particular call sequences across objects",
 ["d7a/alp/command.py","d7a/alp/operands","d7a/system_files","d7a/serial_modem_interface/parser.py"],
 [("per-instance lists, immutable use of defaults","d7a/alp/command.py")],
 ["list(obj) of every live object after each call"])

p("C27","The system file registry is complete and consistent",
 "Each system file id 0x00..0x2F has its defined number, every id up to the last access profile has one registered file whose id and declared length are the defined ones, and the list of all files contains each once in ascending order of id. A command reading a system file asks for that file's id from offset 0 with its declared length; a command writing a system file writes its serialised content at offset 0 of that id.",
 ["inputs","configurations"],"all system file ids and file objects, all interfaces",
 "tests do not cover the registry and cover one read command",
 ["d7a/system_files/system_file_ids.py","d7a/system_files/system_files.py","d7a/alp/command.py"],
 [("SystemFiles.files","d7a/system_files/system_files.py"),("create_with_*_system_file","d7a/alp/command.py")],
 ["SystemFiles().files","get_all_system_files","list(command)"])

p("C28","Values survive storage as JSON",
 "Encoding any command - built or decoded from octets, with interface status or without - to JSON with the provided enum support and decoding it again yields a command with the same octets, tag, completion state, interface status and actions. Likewise every protocol structure, system file and foreground frame comes back with the same octets and field values. Enumeration values come back as the same members, and encoding does not change the value encoded.",
 ["inputs"],"all commands, structures, system files and frames",
 "tests encode one or two commands",
 ["d7a/support/serialization/enum_handler.py","d7a/alp/command.py"],
 [("EnumHandler","d7a/support/serialization/enum_handler.py")],
 ["jsonpickle.decode(jsonpickle.encode(value))"])
p("C29","The MQTT gateway publishes every received payload exactly once, unaltered",
 "From the moment the gateway is connected to the broker, it publishes to its topic (the topic template with the device id filled in) exactly one message for every intact frame that carries data, holding the payload octets verbatim, in the order of arrival. Reboot notifications, log messages, frames of unknown type, damaged frames and other octets are never published. A failing publication or a failure of the serial port does not keep later payloads from being published.",
 ["inputs","schedules","fault_sequences"],"all octet streams and segmentations, topics and device ids, schedules of reader and main thread, and failures of port and broker",
 "no test runs the gateway; faithful forwarding quantifies over payloads and faults",
 ["tools/modem2mqtt.py","modem/modem.py","d7a/serial_modem_interface/parser.py"],
 [("on_command_received / publish_to_mqtt","tools/modem2mqtt.py"),("skip_alp_parsing","modem/modem.py")],
 ["publications on the broker connection (topic, payload)"])

p("C30","What is shown of a value is that value",
 "Every command, action, structure, system file and foreground frame, built or decoded, can be shown as text and as dictionary without failing and without changing it. The dictionary names the class of the object and holds every field: objects with different values have different dictionaries. Likewise texts differ when a field that texts show differs, equal values have equal texts, and a number shown behind the name of a field is the value of that field. The text of a command contains the text of each action and of the interface status; describing the actions lists their texts in order. Where comparison is provided (lengths, channel headers, file permissions, properties and headers) objects are equal exactly when their values are, nothing else is equal to them (except that a length equals its number), and being different is the opposite of being equal.",
 ["inputs","programs"],"all values of every class and all pairs of values",
 "tests print no objects and compare single pairs; the guarantee is about every field of every class and all pairs",
 ["d7a/alp","d7a/types","d7a/fs","d7a/system_files","d7a/sp","d7a/dll"],
 [("__str__ / as_dict / describe_actions","d7a/alp/command.py"),("__eq__ / __ne__","d7a/fs/file_header.py"),("as_dict of Validatable","d7a/support/schema.py")],
 ["str(obj)","obj.as_dict()","describe_actions()","==, !="])
p("C31","Data link frames are reassembled however the stream is cut",
 "A data link frame parser that is fed a stream of intact frames in pieces delivers each frame exactly once, in order and with the values in its octets, however the stream is cut: each call takes the first frame out of what is buffered if that frame is complete, keeps the octets behind it for the next calls, and otherwise waits without an error. The reported numbers of parsed and buffered bits are those of the delivered frame and of what is kept, and nothing is delivered that is not a complete frame.",
 ["inputs","histories"],"all streams of foreground or background frames and all segmentations into calls",
 "tests feed one whole frame to a fresh parser",
 ["d7a/dll/parser.py","d7a/dll/foreground_frame.py","d7a/dll/background_frame.py"],
 [("parse_one_frame_from_buffer / shift_buffer","d7a/dll/parser.py")],
 ["frames and info returned by parse(), call by call"])
p("C32","Commands arrive once and in order over a lossy serial link",
 "When commands are framed by one serial parser and the frames, of which any may be lost as a whole or damaged in payload or checksum (a damaged frame then containing no octet 0xC0 besides its first), reach another parser cut in any way, that parser delivers exactly the commands whose frames arrived intact, each once, in the order of sending, with the tag and actions sent, and by the call that brings the frame's last octet. As long as no frame was damaged its error counter is the number of gaps in the numbers of the frames that arrived, the first being compared with 1. Two parsers that both send and receive do not influence each other's numbering: what a parser receives never changes the numbers of what it sends.",
 ["inputs","histories","fault_sequences"],"all sequences of commands, losses, damages and segmentations in both directions",
 "tests never connect a sender with a receiver, lose no frames and never use one parser for both directions",
 ["d7a/serial_modem_interface/parser.py","d7a/support/Crc.py","d7a/alp/command.py","d7a/alp/parser.py"],
 [("build_serial_frame","d7a/serial_modem_interface/parser.py"),("parse / parse_one_command_from_buffer","d7a/serial_modem_interface/parser.py")],
 ["frames returned by build_serial_frame(), commands and error_counter after parse()"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P:
    jsonschema.validate(d,s); assert len(d["title"])<=80,d["id"]
    print(d["id"], d["statement"].count(". ")+1)
