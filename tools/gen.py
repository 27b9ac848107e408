#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=""):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=["mqttp/" + f if "/" not in f else f for f in files], mech=mech, state=state, observe=observe, note=" ".join(note.split())))


IN, HI, SC = ["inputs"], ["inputs", "histories"], ["schedules", "inputs"]
HDR = ("fixed header, remaining length, type dispatch", "mqttp/header.go decode, mqttp/packet.go Decode")
PRP = ("property block parser and per-packet tables", "mqttp/property.go decode, propertyAllowedMessageTypes")
TOP = ("topic grammar", "mqttp/types.go NewTopic, TopicFilterRegexp, TopicPublishRegexp, SharedTopicRegexp, IsValidUTF")


def accept(id, name, statement, files, mech, note):
    note += "; property blocks of about 126 to 130 and 257 bytes in front of an arbitrary rest; a property text of 16, 64, 128 or 256 bytes with two arbitrary bytes at its start, middle and end; with arbitrary bytes behind the packet in the same array" if id != "A09" else ""
    prop(id, "%s accepts exactly well-formed packets" % name, statement, IN,
         "every byte sequence of the packet body up to the stated length, under every supported protocol version",
         "The tests decode a few dozen hand-written packets; acceptance and field values must be right for every byte sequence, "
         "including the ones where a length, a count or a reserved bit is off by one.",
         files + ["header.go", "packet.go", "property.go"], [HDR] + mech + [PRP], note=note,
         observe=["mqttp.Decode: error, message fields"])


accept("A01", "CONNECT decoding",
       """Decoding a CONNECT packet succeeds exactly if it is well formed for its own protocol version (protocol name and level, reserved bit,
       consistent connect flags, properties, client identifier, will, user name, password, nothing missing or left over), and the message then
       reports exactly the values in the packet. A client identifier consists of letters, digits, space and -_,.|/ and may be empty in 3.x only
       with a clean session; will topics are non-empty valid topic names and user names valid text.""",
       ["connect.go"], [("CONNECT parser", "mqttp/connect.go decodeMessage, SetClientID")],
       "bodies of up to 14 arbitrary bytes in several framings: arbitrary headers, arbitrary payload, one arbitrary field with an arbitrary error in its length, arbitrary property blocks; single fields of 7 to 32 (48) arbitrary bytes")
accept("A02", "CONNACK decoding",
       """Decoding a CONNACK packet succeeds exactly if its body is a flags byte with only the session-present bit possibly set, a reason code that
       CONNACK may carry, a legal property block in 5.0 and none in 3.x, and nothing else. The message then reports exactly these values.""",
       ["connack.go", "reasonCodes.go"], [("CONNACK parser", "mqttp/connack.go decodeMessage")], "arbitrary bodies of up to 9 (11) bytes")
accept("A03", "PUBLISH decoding",
       """Decoding a PUBLISH packet succeeds exactly if its flags are legal (no QoS 3, no DUP with QoS 0), it has a valid topic name (empty only in 5.0 with a
       non-zero topic alias), a packet identifier if and only if QoS is above 0, and in 5.0 a legal property block of an application message.
       The message then reports exactly the topic, QoS, DUP, RETAIN, identifier and properties of the packet, and everything behind them as payload.""",
       ["publish.go", "types.go"], [("PUBLISH parser", "mqttp/publish.go decodeMessage"), TOP],
       "arbitrary flags and bodies of up to 8 (10) bytes, property blocks of up to 7 (9) bytes; topics of 7 to 18 (26) and payloads of up to 32 (48) arbitrary bytes")
accept("A04", "PUBACK, PUBREC, PUBREL, PUBCOMP decoding",
       """Decoding a PUBACK, PUBREC, PUBREL or PUBCOMP packet succeeds exactly if it is a packet identifier, in 5.0 optionally followed by a
       reason code this packet type may carry and then optionally a legal property block, and nothing else.
       The message then reports the identifier, the reason code (success if there is none) and the properties of the packet.""",
       ["puback.go", "reasonCodes.go"], [("acknowledgement parser", "mqttp/puback.go decodeMessage")], "arbitrary bodies of up to 9 (11) bytes")
accept("A05", "SUBSCRIBE decoding",
       """Decoding a SUBSCRIBE packet succeeds exactly if it has a packet identifier, in 5.0 a legal property block, and at least one
       topic filter, each valid and followed by an options byte without reserved bits, QoS 3 or (5.0) retain handling 3.
       The message then reports exactly these filters in order with their options, identifier and properties.""",
       ["subscribe.go", "types.go"], [("SUBSCRIBE parser", "mqttp/subscribe.go decodeMessage"), TOP],
       "arbitrary bodies of up to 8 (9) bytes, up to 3 (4) topics, single topics of up to 5 (6) arbitrary bytes, $share topics, property blocks of up to 7 (10) bytes; lists of up to 4100 (10000) entries; filters of 7 to 18 (26) arbitrary ASCII bytes")
accept("A06", "SUBACK decoding",
       """Decoding a SUBACK packet succeeds exactly if it is a packet identifier, in 5.0 a legal property block, and any number of return codes each of
       which SUBACK may carry in that version (0, 1, 2 or 0x80 in 3.x). The message then reports exactly these codes in order, the identifier
       and the properties.""",
       ["suback.go", "reasonCodes.go"], [("SUBACK parser", "mqttp/suback.go decodeMessage")], "arbitrary bodies of up to 7 (9) bytes; lists of up to 4100 (10000) entries")
accept("A07", "UNSUBSCRIBE decoding",
       """Decoding an UNSUBSCRIBE packet succeeds exactly if it has a packet identifier, in 5.0 a legal property block, and at least one topic filter,
       all of them valid. The message then reports exactly these filters in order, the identifier and the properties.""",
       ["unsubscribe.go", "types.go"], [("UNSUBSCRIBE parser", "mqttp/unsubscribe.go decodeMessage"), TOP],
       "arbitrary bodies of up to 8 (9) bytes, up to 4 (5) topics, property blocks of up to 8 (11) bytes; lists of up to 4100 (10000) entries; filters of 7 to 18 (26) arbitrary ASCII bytes")
accept("A08", "UNSUBACK decoding",
       """Decoding an UNSUBACK packet succeeds exactly if it is a packet identifier, followed in 3.x by nothing, and in 5.0 optionally by a legal
       property block and any number of reason codes that UNSUBACK may carry. The message then reports exactly these codes in order, the
       identifier and the properties.""",
       ["unsuback.go", "reasonCodes.go"], [("UNSUBACK parser", "mqttp/unsuback.go decodeMessage")], "arbitrary bodies of up to 7 (9) bytes; lists of up to 4100 (10000) entries")
accept("A09", "PINGREQ, PINGRESP, DISCONNECT decoding",
       """Decoding a PINGREQ, a PINGRESP or a 3.x DISCONNECT packet succeeds exactly if it has no body. Decoding a 5.0 DISCONNECT packet with a body of at least two
       bytes succeeds exactly if the body is a reason code DISCONNECT may carry followed by a legal property block and nothing else, and the message then reports
       them; without a body the reason code is 0.""",
       ["disconnect.go", "pingreq.go", "pingresp.go"], [("DISCONNECT parser", "mqttp/disconnect.go decodeMessage")],
       "arbitrary bodies of up to 9 (11) bytes; a 5.0 DISCONNECT of exactly one byte is left out (MQTT allows it, the existing tests require its rejection)")
accept("A10", "AUTH decoding",
       """Decoding an AUTH packet fails before MQTT 5.0; in 5.0 it succeeds exactly if the body is empty or is one of the reason codes 0x00, 0x18 and 0x19
       optionally followed by a legal property block and nothing else. The message then reports the reason code (0 if there is none) and the properties.""",
       ["auth.go"], [("AUTH parser", "mqttp/auth.go decodeMessage")], "arbitrary bodies of up to 9 (11) bytes")


def rt(id, name, what, files, mech, note):
    prop(id, "%s round trip" % name, what, IN,
         "every valid message: all flags, codes and identifiers, strings and lists up to the stated sizes, every legal property value",
         "The tests round-trip single packets; the encoder and the decoder must agree for every combination of fields, versions and properties.",
         files + ["header.go", "property.go"], mech + [("property encoder", "mqttp/property.go encode, FullLen")], note=note,
         observe=["mqttp.Encode then mqttp.Decode", "the bytes of the packet read by an independent parser"])


rt("R01", "CONNECT",
   """Encoding a valid CONNECT message and decoding the result yields a message that reports the same version, flags, keep alive, client identifier, will with its
   properties, credentials and properties. The encoded packet has the announced size, the right fixed header, and carries exactly the properties that were set.""",
   ["connect.go"], [("CONNECT encoder and decoder", "mqttp/connect.go encodeMessage, decodeMessage, size")],
   "strings up to 2 (3) arbitrary bytes, one string of 7 to 32 (48), two properties; fields of every length up to 65535 of one character; a will made for another version")
rt("R02", "CONNACK",
   """Encoding a CONNACK message and decoding the result yields the same session-present flag, return code and properties, for every return code CONNACK may carry.
   The encoded packet has the announced size and carries exactly the properties that were set.""",
   ["connack.go"], [("CONNACK encoder and decoder", "mqttp/connack.go encodeMessage, decodeMessage, size")], "up to two properties, strings up to 2 (3) arbitrary bytes")
rt("R03", "PUBLISH",
   """Encoding a valid PUBLISH message and decoding the result yields the same topic, payload, QoS, DUP, RETAIN, packet identifier and properties.
   The encoded packet has the announced size, the right flags, and carries exactly the properties that were set.""",
   ["publish.go"], [("PUBLISH encoder and decoder", "mqttp/publish.go encodeMessage, decodeMessage, size")],
   "topics up to 3 (4) and payloads up to 3 (5) arbitrary bytes, one of them of 7 to 32 (48), two properties; topics of every length up to 65535 with payloads of every length up to 300000, with a packet identifier set also at QoS 0")
rt("R04", "PUBACK, PUBREC, PUBREL, PUBCOMP",
   """Encoding a PUBACK, PUBREC, PUBREL or PUBCOMP message and decoding the result yields the same packet identifier and, in 5.0, the same reason code and properties.
   The encoded packet has the announced size and the right fixed header.""",
   ["puback.go"], [("acknowledgement encoder and decoder", "mqttp/puback.go encodeMessage, decodeMessage, size")], "every code and identifier, up to two properties")
rt("R05", "SUBSCRIBE",
   """Encoding a valid SUBSCRIBE message and decoding the result yields the same topic filters in the same order with the same share names and options,
   the same packet identifier and properties. The encoded packet has the announced size and the right fixed header.""",
   ["subscribe.go"], [("SUBSCRIBE encoder and decoder", "mqttp/subscribe.go encodeMessage, decodeMessage, size")],
   "up to 3 (4) topics of up to 3 (4) arbitrary bytes, two properties; a topic of every length up to 65535; lists of up to 4100 (10000) entries")
rt("R06", "SUBACK",
   """Encoding a SUBACK message and decoding the result yields the same packet identifier, the same return codes in the same order, and the same properties.
   The encoded packet has the announced size and the right fixed header.""",
   ["suback.go"], [("SUBACK encoder and decoder", "mqttp/suback.go encodeMessage, decodeMessage, size")], "up to 3 (4) arbitrary codes, two properties; lists of up to 4100 (10000) entries")
rt("R07", "UNSUBSCRIBE",
   """Encoding a valid UNSUBSCRIBE message and decoding the result yields the same topic filters in the same order, packet identifier and properties.
   The encoded packet has the announced size and the right fixed header.""",
   ["unsubscribe.go"], [("UNSUBSCRIBE encoder and decoder", "mqttp/unsubscribe.go encodeMessage, decodeMessage, size")],
   "up to 3 (4) topics of up to 3 (4) arbitrary bytes, two properties; a topic of every length up to 65535; lists of up to 4100 (10000) entries")
rt("R08", "UNSUBACK",
   """Encoding an UNSUBACK message and decoding the result yields the same packet identifier and, in 5.0, the same reason codes in the same order and the same properties.
   The encoded packet has the announced size and the right fixed header.""",
   ["unsuback.go"], [("UNSUBACK encoder and decoder", "mqttp/unsuback.go encodeMessage, decodeMessage, size")], "up to 3 (4) arbitrary codes, two properties; lists of up to 4100 (10000) entries")
rt("R09", "PINGREQ, PINGRESP, DISCONNECT",
   """Encoding a PINGREQ, PINGRESP or DISCONNECT message and decoding the result yields the same packet type and, for a 5.0 DISCONNECT, the same reason code and properties.
   The encoded packet has the announced size; pings have no body.""",
   ["disconnect.go", "pingreq.go", "pingresp.go"], [("DISCONNECT encoder and decoder", "mqttp/disconnect.go encodeMessage, decodeMessage, size")], "every code, up to two properties")
rt("R10", "AUTH",
   """Encoding an AUTH message and decoding the result yields the same reason code and the same properties, for each of the reason codes AUTH may carry.
   The encoded packet has the announced size and the right fixed header.""",
   ["auth.go"], [("AUTH encoder and decoder", "mqttp/auth.go encodeMessage, decodeMessage, size")], "every code, up to two properties")
rt("R11", "Version switch",
   """A 5.0 message that is switched to 3.x is encoded as a plain 3.x packet without properties and reason codes, keeping its other fields if 3.x can express them.
   A 3.x message that is switched to 5.0 is encoded as a valid 5.0 packet without properties, and both decode to the fields of the message.""",
   ["header.go", "packet.go"], [("version switch", "mqttp/header.go SetVersion")], "every packet type, small fields, up to one property; life cycles of nine types: built in one version, encoded, switched, changed, encoded and decoded, switched back, changed")

ENC = [("size computation and encoder frame", "mqttp/header.go Size, Encode, getHeader"), ("length encoding", "mqttp/header.go uvarintCalc, writeUvarint; mqttp/routines.go WriteLPBytes")]
prop("E01", "Encoding fills exactly the announced size",
     """For every valid message, encoding into a buffer of at least the announced size writes exactly the announced number of bytes, does not depend on the old content of
     the buffer and leaves what lies behind alone. Encoding into a shorter buffer is refused, reports the size needed and writes nothing, and does not change the message.""",
     IN, "every packet type and version, arbitrary small fields, every shorter buffer length with and without capacity behind it, up to two extra bytes, arbitrary old content, room behind a short buffer in its array, buffers up to 1500 bytes too long; 300 (1100) encodings of one message; three messages of any type encoded into the same memory",
     "The tests encode into fresh zeroed buffers of the right size; stale bytes and short buffers show only for particular fields.",
     ["header.go", "packet.go"], ENC, observe=["Encode: count, error, buffer"])
prop("E02", "Sizes are right for every length",
     """For every payload length, for every length of a topic, client identifier, user name, password, will or property value, the announced size is the size of the packet, the remaining and
     property lengths are minimal and exact, and the content survives encoding and decoding.
     A packet whose remaining length would exceed 268435455 bytes is refused.""",
     IN, "payloads of 0 to 300000000 bytes with arbitrary content, fields of 0 to 65535 bytes of one character; every text property of every packet type at every length beside another property; property blocks around the length that takes four bytes",
     "The boundaries of the variable length (127, 16383, 2097151, 268435455) matter in every packet and property block; tests use short strings.",
     ["header.go", "publish.go", "connect.go", "property.go", "subscribe.go", "unsubscribe.go"], ENC, observe=["Size, Encode, Decode"])
prop("E03", "Illegal messages are not encoded",
     """A PUBLISH with DUP at QoS 0, with QoS above 0 without packet identifier, or without both topic and non-zero topic alias is not encoded, nor is an acknowledgement, SUBSCRIBE, UNSUBSCRIBE, SUBACK or UNSUBACK
     without packet identifier, a SUBSCRIBE or UNSUBSCRIBE without topics, or a CONNECT of an unknown protocol version. A field of more than 65535 bytes is refused, never truncated.
     The corresponding legal messages are encoded with the identifier that was set.""",
     IN, "every QoS, DUP, alias, identifier and version; over-long fields of 65536 to 200000 bytes, every over-long text property of every packet type beside others",
     "Each refusal has one test at most; the combinations and lengths are not sampled.",
     ["publish.go", "connect.go", "subscribe.go", "unsubscribe.go", "puback.go", "suback.go", "unsuback.go", "routines.go"],
     [("encode-time validation", "encodeMessage of every packet type"), ("length prefix limit", "mqttp/routines.go WriteLPBytes")], observe=["Encode: error"])
prop("E04", "Every property is encoded once, whatever the iteration order",
     """Whatever the order in which the properties of a message are visited, the encoded block contains every property exactly once with its value, and its
     length prefix is the exact minimal length of the block. Repeated user properties keep their order.""",
     ["inputs", "schedules"], "any two properties of any packet type, any three of PUBLISH, CONNECT, DISCONNECT and AUTH, and 4 (5) different ones of CONNACK, with arbitrary values; four, half or all of the properties of CONNACK, PUBLISH, CONNECT, DISCONNECT and AUTH from any one on, user properties twice; every iteration order of the property map",
     "Go randomises map iteration; a run of a test sees one order.",
     ["property.go"], [("property encoder", "mqttp/property.go encode, ForEach")], observe=["bytes of the packet"])

prop("D01", "Decoding is total and does not touch its input",
     """Decoding any byte sequence under any protocol version never panics, never changes the given bytes, and returns either a message or an error, never both or neither.
     A successful decode consumes exactly the packet, and the message has the type and flags in the first byte and the remaining length of the packet.""",
     IN, "every byte sequence of up to 6 (8) bytes under every version number, every first byte with every body of up to 8 (10) bytes, valid packets of every type with all fields; a packet with an arbitrary byte in the memory in which another one, or part of it, was decoded before; packets in an array with other bytes behind them",
     "A server decodes what strangers send: robustness is a statement about all inputs, and tests sample a few malformed packets.",
     ["packet.go", "header.go"], [HDR, ("panic barrier", "mqttp/packet.go Decode")], observe=["mqttp.Decode"])
prop("D02", "Incomplete and over-long input is recognised with the full packet size",
     """For a packet that is not complete yet, decoding reports insufficient data and, as soon as the remaining length is known, the full size of the packet; for a buffer longer than the packet it reports a
     protocol error and the packet size. A remaining length of more than four bytes is refused, and an empty buffer is reported as such.""",
     IN, "every remaining length from 0 to 268435455 with every amount of data behind it; every prefix of small packets of every type; packets of every type that grow in place byte by byte, or that end early, with arbitrary bytes behind them in the same array",
     "Stream readers depend on this for every split of the stream; the tests try a handful.",
     ["header.go", "packet.go"], [HDR], observe=["mqttp.Decode: n, error"])
prop("D03", "The fixed header decides which packets exist",
     """An otherwise valid packet is accepted exactly if its fixed header flags are the required ones (for PUBLISH: not QoS 3, no DUP at QoS 0). Packet type 0, and AUTH before 5.0, never yield a message,
     by decoding or by creating one; every other type yields an empty message of that type and version without packet identifier.""",
     IN, "every flag nibble on small packets of every type; every type and version number",
     "Table-driven code with one entry per packet type; tests visit few wrong entries.",
     ["header.go", "packet.go", "packetType.go"], [HDR, ("message factory", "mqttp/packet.go newMessage")], observe=["mqttp.Decode, mqttp.New"])
prop("D04", "Accepted packets survive re-encoding",
     """Every 3.x packet that decodes is reproduced byte for byte by encoding the message again. Every 5.0 packet that decodes can be encoded again, and decoding the
     result yields the same fields and the same properties with the same values.""",
     IN, "every packet with a body of up to 7 (9) bytes, CONNECT payloads of up to 9 (11), property blocks of up to 7 (9) bytes for every packet type; up to 260 user properties or subscription identifiers; 4100 (10000) user properties; property texts of 7 to 32 (48) arbitrary characters",
     "A broker stores and forwards what it decodes: nothing may be lost for any accepted packet.",
     ["packet.go", "property.go"], [HDR, PRP], observe=["mqttp.Decode, mqttp.Encode"])
prop("D05", "Decoded messages do not depend on the input buffer",
     """After a packet was decoded, overwriting the buffer it was decoded from changes neither the topic, payload, flags and properties of a PUBLISH or of a will, nor the
     identifiers, codes and properties of the other packets.""",
     IN, "small messages of every type with one property, overwritten with an arbitrary byte",
     "Aliasing shows only when the caller reuses its buffer, which the tests never do.",
     ["publish.go", "connect.go", "property.go"], [("copies made while decoding", "mqttp/publish.go, mqttp/property.go")],
     note="client identifier, credentials and topic filters are documented to reference the buffer and are not claimed")

prop("D06", "Separate messages do not influence one another",
     """Creating, decoding, setting, cloning, reading or encoding one message never changes what another message reports or how it encodes, nor the bytes an earlier encoding returned or that were passed in, even if messages were built or decoded from the same memory.
     Goroutines that work on separate messages need no synchronisation: the package itself writes no memory they share without synchronising.""",
     IN, "every message type with small contents and one property against packets of every type; topics and texts of up to 3 (4) arbitrary bytes; pairs of messages of every type that share memory, one of which is changed; messages with payloads, texts and property values of up to 70000 bytes; 130 (600) messages of a type that are decoded and encoded between two looks at one, 100 (1000) topics; two packets of any type in memory that was used for another packet, accepted, incomplete or refused; the memory accesses of operations on messages of every type, of decoding arbitrary bodies of up to 7 (8) bytes, of failing calls, and of work with contents of 60000 bytes and lists of 4000 entries, all recorded",
     "A broker handles thousands of messages in as many goroutines; a cache or scratch buffer shared by mistake shows only when two of them meet, which sequential tests cannot produce.",
     ["packet.go", "header.go", "property.go", "types.go", "publish.go"], [HDR, PRP, ("package variables", "mqttp/types.go, mqttp/property.go")], observe=["mqttp.New, mqttp.Decode, mqttp.Encode, setters, PropertySet, NewTopic"],
     note="a counterexample of the shared-memory harnesses is replayed in two goroutines of a binary built with the race detector; messages that the caller hands to two goroutines are not covered")

prop("D07", "Reading and cloning leave a message as it is",
     """Reading a message (its fields, topics, properties and expiry), or cloning a PUBLISH, writes nothing to the message: any number of goroutines may do so at the same time without synchronisation.
     What one of them then does with its own clone, setting, discarding and encoding, touches neither the message nor the other clones.""",
     IN, "messages of every type with small contents and one property, built, encoded or decoded; a PUBLISH with several of the properties that are forwarded and every pair of versions; topics of up to 4 (5) bytes; every memory access of one run is recorded",
     "A retained message is handed to every session that subscribes, each in a goroutine of its own; a value computed on first use and kept, or a list shared with the clone, races only then.",
     ["publish.go", "property.go", "header.go", "types.go"], [("getters and Clone", "mqttp/publish.go Clone, Expired; mqttp/header.go PropertyGet, PropertyForEach; mqttp/types.go Topic")], observe=["getters, PropertyGet, PropertyForEach, Expired, Clone"],
     note="Size and Encode store the remaining length in the message and are not claimed to be readers; a counterexample is replayed in two goroutines of a binary built with the race detector")

prop("T01", "Topic filters are accepted exactly by the MQTT grammar",
     """A topic filter is accepted exactly if it is non-empty valid text, # occurs only as the whole last level and + only as a whole level, and an initial $ level is followed by further levels.
     An accepted filter is reported unchanged, with its $ prefix.""",
     IN, "every byte sequence of up to 7 (8) bytes; every ASCII sequence of up to 18 (26); several starts of multiple levels and of multi-byte characters with 4 (5) arbitrary bytes; single levels, and several levels, up to 65535 bytes, with arbitrary bytes at start, middle and end; two filters of up to 3 (4) bytes one after the other in the same memory",
     "The grammar is given by regular expressions; tests try some twenty strings.",
     ["types.go"], [TOP], observe=["NewTopic"])
prop("T02", "Shared subscriptions are split and judged correctly",
     """A filter that starts with $share/ is accepted exactly if a non-empty share name without wildcards, a / and a valid filter follow, and is reported as that share name and filter; other $ prefixes are not treated as shared.
     A subscription keeps its options and is refused for QoS 3.""",
     IN, "ten starts around $share with up to 4 (5) arbitrary bytes, every option byte",
     "The split depends on where the separators are; tests try few positions.",
     ["types.go"], [TOP], observe=["NewTopic, NewSubscribeTopic"])
prop("T03", "Topic names and text strings are judged correctly",
     """Text is valid exactly if it is well-formed UTF-8 without the control characters U+0000 to U+001F and U+007F to U+009F; a topic name is valid exactly if it also contains no + and no #.
     Setting the topic of a message succeeds exactly for valid names (in 3.x non-empty ones) and otherwise leaves the message unchanged.""",
     IN, "every byte sequence of up to 8 (10) bytes; every ASCII sequence of up to 18 (26); strings of one character up to 65535 bytes; two strings of up to 4 (5) bytes one after the other in the same memory",
     "UTF-8 validity is a statement about all byte sequences.",
     ["types.go", "publish.go"], [TOP, ("name check", "mqttp/publish.go ValidTopic, SetTopic, Set")], observe=["ValidTopic, IsValidUTF, SetTopic, Set"])
prop("T04", "Subscription options and QoS values are read correctly",
     """The fields of a subscription options byte are QoS in bits 0-1, no local in bit 2, retain as published in bit 3 and retain handling in bits 4-5. Exactly 0, 1 and 2 are valid QoS values (and 0x80 as a granted
     one), each with its own description, and a message takes exactly the valid ones.""",
     IN, "every options byte, every QoS byte",
     "Bit masks are easily off by one bit for values the tests do not use.",
     ["subscribe.go", "qos.go"], [("bit masks", "mqttp/subscribe.go SubscriptionOptions"), ("QoS values", "mqttp/qos.go")], observe=["SubscriptionOptions, QosType methods"])

prop("P01", "Exactly the legal properties can be set",
     """Setting a property on a 5.0 message succeeds exactly if the identifier exists, the packet type may carry it, and the value has the right type, fits its encoding and is a list only where repetition is allowed;
     the packet then carries it. Otherwise the error names the reason (unknown, wrong packet type, wrong value type) and message and size are unchanged; 3.x messages refuse and report no properties.""",
     IN, "every packet type, every identifier, values of 15 Go types with arbitrary small content, with and without another property present",
     "Identifiers times packet types times value types is a space of thousands of cases; tests visit some.",
     ["property.go", "packet.go"], [PRP, ("setters per type", "mqttp/property.go Set and the set functions")], observe=["PropertySet, Size, Encode, PropertyGet"],
     note="strings are at most 2 bytes; which error a list value gets is not claimed")
prop("P02", "The last value set counts and sizes stay exact",
     """After any sequence of setting and discarding properties, on new, encoded and decoded messages, the encoded packet carries for every property exactly the last value that was set, with user properties in order. The announced size is the size of that packet.""",
     HI, "two values of every property of every packet type; sequences of up to 3 (4) calls on six packet types; two changes of messages of every type that are encoded or decoded in between; 300 (1100) calls for one property; 4100 (10000) user properties; property texts of 7 to 32 (48) arbitrary characters",
     "Length bookkeeping is incremental and goes wrong only for particular sequences.",
     ["property.go", "packet.go"], [("incremental property length", "mqttp/property.go Set, reset")], observe=["Size, Encode"])
prop("P03", "Properties are read back by their own type only",
     """A property that was set or decoded is reported by lookup and once by enumeration, with its value through the accessor of its type, and with an error through every other accessor. Properties that were not set are not reported. What was handed out stays as it was when further properties are read, set or discarded.""",
     IN, "every packet type and property, arbitrary small values, single and repeated, alone and with a second property; two (three) values kept while properties are replaced or discarded; lookups, enumerations and encodings inside an enumeration",
     "One accessor per type and property; tests call few wrong ones.",
     ["property.go"], [("accessors", "mqttp/property.go PropertyToType implementations")], observe=["PropertyGet, PropertyForEach, As*"])
prop("P04", "The property tables are those of MQTT 5.0",
     """A property identifier is valid, may occur in a packet type, and may be repeated there exactly as MQTT 5.0 says, for every identifier and every packet type, with will properties counted as those of PUBLISH.""",
     IN, "every 32-bit identifier, every packet type number",
     "Each table entry is a case of its own.",
     ["property.go"], [("tables", "mqttp/property.go propertyAllowedMessageTypes, DupAllowed")], observe=["IsValid, IsValidPacketType, DupAllowed"])
prop("P05", "Discarding properties leaves none",
     """After the properties of a message are discarded, whatever protocol version it is set to at that moment, none is reported or enumerated, and size and encoding are those of the message before any property was set. Properties can be set again afterwards.""",
     HI, "every packet type, up to two arbitrary properties, with and without computing the size before",
     "Stale lengths show only after a discard that follows particular calls.",
     ["property.go", "packet.go"], [("reset", "mqttp/property.go reset; PropertiesDiscard")], observe=["PropertiesDiscard, Size, Encode"])

prop("S01", "PUBLISH reports and encodes what was set last",
     """After any sequence of setter calls a PUBLISH message reports the last value accepted for topic, payload, QoS, RETAIN, DUP, packet identifier and publisher, and its flags combine QoS, RETAIN and DUP accordingly.
     Setters refuse exactly invalid topics and QoS values, and a refused call changes nothing. A message that was encoded or decoded in between reports and encodes like a new one with the same content.""",
     HI, "sequences of up to 3 (4) calls of eight setters with arbitrary arguments; two changes of a full message that is encoded, decoded or refused a short buffer in between",
     "Flag bits share a byte: one setter can disturb another only in particular orders.",
     ["publish.go", "header.go"], [("flag bits", "mqttp/publish.go Set, SetQoS, SetRetain, SetDup")], observe=["getters"])
prop("S02", "CONNECT reports and encodes what was set last",
     """After any sequence of setter calls a CONNECT message reports and encodes the last accepted clean flag, keep alive, client identifier, will and credentials, with connect flags that match; a removed will leaves no trace.
     Client identifiers, user names, 3.x passwords without user name and empty wills are refused exactly when invalid, and a refused call changes nothing.
     A message that was encoded or decoded in between reports and encodes like a new one with the same content.""",
     HI, "sequences of up to 3 (4) calls of seven setters with arbitrary arguments; two changes of a full message that is encoded, decoded or refused a short buffer in between; client identifiers up to 5 (8) bytes, user names up to 4 (6)",
     "Connect flags are shared by several setters and go wrong only in particular orders.",
     ["connect.go"], [("connect flags", "mqttp/connect.go SetWill, ResetWill, SetCredentials, SetClean")], observe=["getters, bytes of the packet"])
prop("S03", "A cloned message carries what is forwarded and is independent",
     """Cloning a PUBLISH keeps topic, payload, QoS, RETAIN and expiry, drops DUP and packet identifier, and between 5.0 messages keeps exactly payload format, content type, response topic, correlation data and user properties with their values.
     Changing the clone through its setters does not change the source, nor the other way round.""",
     HI, "arbitrary small messages, every pair of versions, every subset of the eight properties; up to two calls of any setter on clone or source; a property changed on clone or source for every subset of six properties; 5 to 4100 (10000) user properties; topics and payloads of 7 to 32 (48) arbitrary bytes",
     "Each property is forwarded by code of its own; tests clone one or two messages.",
     ["publish.go"], [("Clone", "mqttp/publish.go Clone")], observe=["Clone, getters, Encode"])
prop("S04", "Message expiry follows the clock",
     """A message with an expiry time is expired exactly if less than one second is left, and otherwise reports the whole seconds left (the largest number if they are too many). A message without expiry never expires.""",
     IN, "every current time and expiry time within two thousand years of 1970, to the nanosecond; histories of 3 (4) steps: another expiry time, none, a question at a later time, a clone",
     "Time arithmetic must hold at every instant; tests sleep for particular ones.",
     ["publish.go"], [("Expired", "mqttp/publish.go Expired, SetExpireAt")], observe=["Expired"])
prop("S05", "Acknowledgements report and encode what was set",
     """CONNACK, SUBACK, UNSUBACK, PUBACK and its family, DISCONNECT and AUTH report exactly the codes, flags and packet identifiers that were set, with return codes and topics in the order they were added, also if the message was encoded or decoded in between or the list of codes is used for something else later.
     Invalid codes are refused by CONNACK, SUBACK, UNSUBACK and AUTH without any change; visiting topics stops at and returns the first error.""",
     HI, "every code, up to 3 calls, up to 4 topics; two changes of a message that is encoded, decoded or refused a short buffer in between",
     "Each packet has its own table of codes per version.",
     ["connack.go", "suback.go", "unsuback.go", "puback.go", "disconnect.go", "auth.go", "subscribe.go", "unsubscribe.go"],
     [("setters", "SetReturnCode, AddReturnCode(s), SetReason, SetReasonCode, SetPacketID, ForEachTopic")], observe=["getters"])

prop("C01", "Reason codes belong to packet types as MQTT defines",
     """A reason code is valid for a packet type, known at all, and a return code of MQTT 3 exactly as the specifications say, and every known code has a text that differs from the one for unknown codes.
     Its direction (server, client or both) is reported as MQTT 5.0 says, and an error for codes a packet type does not have.""",
     IN, "every code byte and every packet type number",
     "Nine tables of codes; the tests look at a few entries.",
     ["reasonCodes.go"], [("tables", "mqttp/reasonCodes.go packetTypeCodeMap, codeDescMap")], observe=["IsValidForType, PacketTypeDir, IsValid, IsValidV3, IsValidV5, Desc"],
     note="the direction of SUBACK and UNSUBACK codes is not claimed")
prop("C02", "Every error has a text of its own",
     """Every error and every property error of the packet library has a non-empty text that no other error of its kind shares; values that are no error have the text of an unknown error.""",
     IN, "every pair of error values", "Texts are picked by switch; nothing tests that each value has one.",
     ["errors.go", "property.go"], [("texts", "mqttp/errors.go Error, mqttp/property.go PropertyError.Error")], observe=["Error"])
prop("C03", "Packet types and versions are those of MQTT",
     """Each of the packet types has its name, a description and the fixed header flags MQTT requires; other values are unknown and never panic. Exactly the versions 3, 4 and 5 exist, AUTH only in 5,
     and messages can be created for exactly the types of a version.""",
     IN, "every type byte and every version byte", "Tables and comparisons at their boundary values.",
     ["packetType.go", "packet.go"], [("tables", "mqttp/packetType.go"), ("factory", "mqttp/packet.go newMessage")], observe=["Name, Desc, DefaultFlags, Valid, IsValid, New"])

MON = ["vlmonitoring/vlmetrics.go"]
prop("M01", "Counters lose no concurrent addition",
     """Whatever the interleaving, a counter, and each direction of a flow counter, ends at the sum of all additions. Each addition returns the total at that moment.""",
     SC, "4 (5) threads adding arbitrary 64-bit numbers, every interleaving of their atomic steps",
     "A lost update needs a particular interleaving that a test run does not produce.",
     MON, [("atomic addition", "vlmonitoring/vlmetrics.go AddU64")], observe=["Load, Get, returned totals"],
     note="sequentially consistent memory, at most 6 preemptions")
prop("M02", "Gauges keep their exact value and their peak",
     """Whatever the interleaving of additions and subtractions, a gauge ends at the exact balance. Its peak is never below a value it must have had and never above what it could have reached, and with additions alone, or one thread, it is exactly the highest value so far.""",
     SC + ["histories"], "2 (3) threads adding, two adding and one subtracting, one addition against 3 (4) updates of a busy thread, arbitrary 64-bit numbers whose sum does not overflow, every interleaving; sequences of 4 (7) updates",
     "The peak is updated in a second step; losing it needs an interleaving between the two.",
     MON, [("compare and swap of the peak", "vlmonitoring/vlmetrics.go Max.AddU64")], observe=["Load: value, Max"], note="sequentially consistent memory, at most 6 preemptions")
prop("M03", "Differences neither lose nor repeat anything",
     """When one reader repeatedly takes the difference of a counter or flow counter to its previous state while others add, the differences sum up to all additions seen, each counted once, in the right direction. Taking a difference does not change the counter.""",
     SC + ["histories"], "two additions and two to three differences in every interleaving; sequences of 4 (8) steps from zero, and of 3 (4) from arbitrary values of a flow counter, across the overflow of 64 bits",
     "Losing an addition needs one between the two reads of a difference.",
     MON, [("LoadStore", "vlmonitoring/vlmetrics.go LoadStore, Diff")], observe=["Diff"], note="one reader per previous state")
prop("M04", "The counters of the statistics are independent",
     """Every counter and gauge in the statistics changes only when it is itself updated, and by exactly the number added.""",
     IN, "an arbitrary addition to each of 30 counters and 8 gauges; then 2 (3) operations in any order on one flow counter, counter or gauge, with arbitrary 64-bit numbers, also beyond the range", "Nothing tests the statistics.",
     MON, [("statistics", "vlmonitoring/vlmetrics.go Stats, Packets, Clients, Subscriptions")], observe=["Load, Get"])

prop("U01", "Length-prefixed fields are read and written exactly",
     """Reading a length-prefixed field returns exactly its bytes and length, or reports insufficient data if it is cut short, and never reads outside the buffer. Writing one writes exactly prefix and content, or nothing if the buffer is too small or the
     field longer than 65535 bytes, and reading returns what was written.""",
     IN, "buffers of up to 6 (10) arbitrary bytes with arbitrary bytes behind them, fields up to 4 (8) into buffers up to 8 (12) bytes, fields of 0 to 70000 arbitrary bytes",
     "Bounds errors show only at the exact boundary.",
     ["routines.go"], [("field access", "mqttp/routines.go ReadLPBytes, WriteLPBytes")], observe=["ReadLPBytes, WriteLPBytes"])
prop("U02", "Configurations are normalised without loss",
     """A configuration map is accepted exactly if all its keys are strings, and the result has the same keys and values. Anything else is refused with an error and no result.""",
     IN, "maps of up to 3 entries with arbitrary values, two with arbitrary keys, keys of up to 20 (40) arbitrary bytes with values of 14 types, maps of 9, 33 and 100 entries, nested maps, keys of other types, other types, nil", "Nothing tests it.",
     ["vltypes/config.go"], [("NormalizeConfig", "vltypes/config.go NormalizeConfig")], observe=["NormalizeConfig"])
prop("U03", "Only an explicit grant reads as access granted",
     """An authorisation status reads as allowed exactly if it is the grant, whatever its value; access types are named read and write and nothing else. Every error of the authorisation interface has a text of its own.""",
     IN, "every status, access type and pair of error values", "Fallback cases are not tested.",
     ["vlauth/auth.go"], [("status and error texts", "vlauth/auth.go")], observe=["Desc, Error, Type"])
prop("U04", "Every persistence error has a text of its own",
     """Every error of the persistence interface has a non-empty text that no other one shares, and any other value has the text of an unknown error.""",
     IN, "every pair of error values", "Nothing tests it.",
     ["vlpersistence/types.go"], [("texts", "vlpersistence/types.go Errors.Error")], observe=["Error"])
prop("U05", "A plugin descriptor reports what it was given",
     """A plugin descriptor reports the version, name, description and type it was given, each unchanged, together with the API version.""",
     IN, "arbitrary strings of up to 3 (5) bytes", "Nothing tests it.",
     ["vlplugin/plugin.go"], [("descriptor", "vlplugin/plugin.go Descriptor")], observe=["Version, Name, Desc, Type"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=list(p["observe"]), hook_needed=None))) + "\n")

LEVEL = ("Bounded: every input, order and interleaving within the stated bounds, decided by SMT over the SSA form of the current source; counterexamples are replayed natively. "
         "Trusted: go/ssa, the engine and its library models, the solvers. ")
man = dict(
    version=1,
    setup_cmd="bash tools/setup.sh",
    hooks=dict(guard="none", enable="no hooks: the checks read /repo's source through go/packages; the native replay instruments atomics and the clock with a build overlay", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="bash run_check.sh %s quick" % p["id"], thorough_cmd="bash run_check.sh %s thorough" % p["id"],
                 technique="symbolic execution of the Go SSA with SMT (z3, cvc5), native replay of counterexamples", level="model_checking",
                 level_note=LEVEL + "Bounds (thorough in brackets): " + p["text"] + "." + (" " + p["note"][0].upper() + p["note"][1:] + "." if p["note"] else ""))
            for p in P],
    not_applicable=[],
    notes="See DESIGN.md. Known defects: known-findings.txt.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties")
