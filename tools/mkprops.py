#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the table is the source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ wire codec
p("C01", "Every value the library sends is encoded exactly as BACnet defines it",
  "Any supported application value (null, boolean, unsigned, signed, real, double, character string, enumerated, object identifier) is encoded to exactly the octets clause 20.2 of the BACnet standard prescribes: right tag, right length, shortest integer form, big-endian content. Decoding those octets yields the same value and consumes exactly them, alone or inside a sequence of values. A value that cannot be represented is refused with an error and is never silently encoded as something else.",
  ["inputs"], "all values of every supported type, including boundary integers, NaN payloads, long strings, and every sequence of them",
  "The tests encode a handful of hand-picked values and only check that the library decodes its own output, so a mistake made symmetrically by encoder and decoder, or at an untried length boundary, passes.",
  ["encoding/appdata.go", "encoding/encoder.go", "encoding/decoder.go", "encoding/string.go", "encoding/general.go"],
  [("application tag + length writer", "encoding/encoder.go tag()"), ("type switch", "encoding/appdata.go AppData()")],
  ["octets produced by the encoder", "value and remaining octets after decoding"])
p("C02", "Every value a peer may send is decoded to the value the standard gives it",
  "For every application datatype (including octet strings, bit strings, UCS-2 and UTF-8 strings, dates, times, unsigned and signed integers of every legal width) the decoded value equals the one the BACnet standard assigns to those octets, and decoding consumes exactly that value's octets. Unspecified dates stay recognisable as unspecified, signed integers keep their sign, and bit strings keep their bit order and exact bit count.",
  ["inputs"], "all standard-conforming encodings of every application datatype, in every legal length form, alone and in sequences",
  "The tests only decode what the library itself can encode (no octet strings, bit strings, multi-width signed integers) plus a few captured packets.",
  ["encoding/appdata.go", "encoding/decoder.go", "encoding/date.go", "encoding/string.go", "btypes/bitstring.go", "btypes/datetime.go"],
  [("datatype dispatch", "encoding/appdata.go AppDataOfTag()"), ("date/time conversion", "encoding/date.go")],
  ["decoded value", "remaining octets"])
p("C03", "No received octets can crash, hang or exhaust memory in any decoder",
  "Whatever octets are handed to any decoder (values, service requests and replies, network and application headers, link headers), decoding terminates promptly, never panics, and allocates memory proportional to the input only. The result is a value or an error.",
  ["inputs"], "all octet strings up to the largest datagram, random, truncated, spliced and mutated from valid messages, for every decoder",
  "Tests feed well-formed packets only; hostile lengths, nesting and truncation points are unbounded in number.",
  ["encoding/decoder.go", "encoding/appdata.go", "encoding/readmultipleack.go", "encoding/readprop.go", "encoding/npdu.go", "encoding/apdu.go", "encoding/iam.go", "encoding/whois.go", "encoding/string.go", "encoding/date.go", "btypes/bitstring.go"],
  [("sticky decoder error", "encoding/decoder.go decode()"), ("length checks before allocation", "encoding/decoder.go")],
  ["panic, elapsed time, bytes allocated by the decode call"])
p("C04", "A truncated message is reported as an error, never as a shorter success",
  "If a well-formed message is cut short anywhere inside a mandatory part, decoding it reports an error. It never returns success with a value that was only partly received (zero-filled, shortened or missing elements).",
  ["inputs"], "every proper prefix of every well-formed value, header, request and reply, restricted to cuts that do not fall on the boundary of an optional trailing part",
  "The tests never truncate a packet; every cut position of every message shape is its own case.",
  ["encoding/decoder.go", "encoding/appdata.go", "encoding/readprop.go", "encoding/readmultipleack.go", "encoding/npdu.go", "encoding/iam.go", "encoding/whois.go", "encoding/apdu.go", "encoding/bvlc.go"],
  [("sticky decoder error", "encoding/decoder.go decode()")], ["error returned by the decode call or held by the decoder"])
p("C05", "Read requests carry exactly the objects, properties and indexes asked for",
  "A single or multiple property read request encodes to exactly the service request the BACnet standard defines for the objects, properties and array indexes given, in the given order, with the invoke id given; the array index appears if and only if one was asked for. Decoding an encoded single-property request returns the same object, property and index.",
  ["inputs"], "all object identifiers, property identifiers, array indexes and invoke ids in range, with any number of objects and properties per request",
  "The tests check one or two requests and never compare the octets against an independent encoding.",
  ["encoding/readprop.go", "encoding/readmultiple.go", "encoding/encoder.go", "encoding/apdu.go"],
  [("request header", "encoding/readprop.go readPropertyHeader()"), ("list of read access specifications", "encoding/encoder.go objects(), properties()")],
  ["request octets"])
p("C06", "Write requests carry exactly the value, index and priority asked for",
  "A single or multiple property write request encodes to exactly the service request the BACnet standard defines: object, property, optional array index, the value between its opening and closing tags, and the command priority if and only if one was given. Present values of binary outputs and binary values given as unsigned numbers are sent as enumerations in single writes.",
  ["inputs"], "all objects, properties, indexes, priorities 0..16 and values of every supported type, with any number of objects and properties",
  "The tests write a few values and do not look at the octets, so a priority or tag mistake is invisible until a device refuses it or writes at the wrong priority.",
  ["encoding/writeprop.go", "encoding/writemultiple.go", "encoding/encoder.go", "encoding/appdata.go"],
  [("request writer", "encoding/writeprop.go"), ("list of write access specifications", "encoding/encoder.go objects(), properties()")],
  ["request octets"])
p("C07", "A single-property reply is decoded to exactly what the device answered",
  "For every well-formed single-property acknowledgement the decoded object, property, array index and value(s) equal those the device sent, with list values in order. The library's own acknowledgement encoder produces the standard's octets. An acknowledgement whose value contains constructed data never makes other fields wrong, and the members of records whose datatypes the library knows (references, recipients, action commands, subscriptions and the like) come back as the values that were sent, in order.",
  ["inputs"], "all objects, properties, optional indexes and lists of values of every datatype, of any length",
  "The tests decode one captured reply and a handful of self-encoded ones.",
  ["encoding/readprop.go", "encoding/appdata.go", "encoding/decoder.go"],
  [("reply decoder", "encoding/readprop.go ReadProperty()"), ("reply encoder", "encoding/readprop.go ReadPropertyAck()")],
  ["decoded property data", "encoded acknowledgement octets"])
p("C08", "A multiple-property reply yields every object, property and value, in order",
  "For every well-formed multiple-property acknowledgement, decoding returns each object once, in order, with each of its properties, array indexes and values, in order, equal to what the device sent. Values that are constructed (time stamps, nested or context-tagged data) never shift, duplicate, drop or corrupt the objects and properties around them; the members of records whose datatypes the library knows come back as the values that were sent, in order. A reply that reports a property access error is reported as an error naming the device's class and code.",
  ["inputs"], "all replies with any number of objects and properties, any mixture of primitive, list, time-stamp and nested constructed values, and per-property errors",
  "The tests decode three captured packets; the interplay of nesting, context tags and lists with what follows is unbounded.",
  ["encoding/readmultipleack.go", "encoding/context_tag.go", "encoding/appdata.go"],
  [("reply decoder", "encoding/readmultipleack.go objectsWithData()"), ("context tag typing", "encoding/context_tag.go")],
  ["decoded objects, properties and values", "encoded acknowledgement octets"])
p("C09", "Network headers are encoded and decoded exactly as the standard defines",
  "Every network-layer header (priority, expecting-reply, destination and source networks with addresses of any length, hop count, network message type and vendor id) encodes to the standard's octets and decodes back to the same fields, leaving exactly the payload unread. Router announcements return every distinct announced network, in order, and network-number announcements return the announced number.",
  ["inputs"], "all combinations of header fields, address lengths 0..255, message types including proprietary ones, and router lists of any length",
  "The tests decode one header and never vary address lengths, message types or list lengths.",
  ["encoding/npdu.go", "btypes/npdu.go", "btypes/address.go"],
  [("header codec", "encoding/npdu.go")], ["header octets, decoded header, remaining octets"])
p("C10", "Application headers and negotiated sizes are encoded and decoded exactly",
  "Every application-layer header (confirmed and unconfirmed requests, complex acknowledgements, and when decoding simple acknowledgements) encodes to the standard's octets and decodes back to the same type, flags, invoke id, service and payload. Maximum sizes are advertised as the smallest standard size that holds what was asked (the largest standard size beyond that) and segment counts as the largest standard count not above it, and every standard size survives a round trip.",
  ["inputs"], "all PDU types, flag combinations, invoke ids, services, and all maximum sizes and segment counts",
  "The tests cover a few sizes and one header.",
  ["encoding/apdu.go", "encoding/general.go", "btypes/apdu.go"],
  [("header codec", "encoding/apdu.go"), ("size octet", "encoding/general.go")], ["header octets, decoded header"])
p("C11", "A device's error reply is decoded to its exact error class and code",
  "For every error acknowledgement, with the class and code in either the plain form or enclosed in tags, the decoded invoke id, service, error class and error code are the device's, whatever their width. An error reply that is incomplete or malformed is reported as such.",
  ["inputs"], "all invoke ids, services, error classes and codes (1..4 octets wide), in both layouts",
  "The single test decodes one captured error without checking the decoded class and code.",
  ["encoding/apdu.go", "btypes/bacerr/bacerr.go"],
  [("error decoder", "encoding/apdu.go apduError()")], ["decoded error class, code, service, invoke id"])
p("C12", "Who-Is and I-Am are encoded and decoded exactly; malformed I-Ams are refused",
  "A Who-Is carries exactly the requested device range (or none when every device is wanted) and an I-Am exactly the announced device id, size, segmentation and vendor; decoding returns the same. An I-Am whose fields have the wrong datatypes or are missing is refused rather than yielding an invented device.",
  ["inputs"], "all device ranges and all I-Am field values and widths, plus every wrong-datatype substitution",
  "The tests round-trip two or three values with the library's own codec.",
  ["encoding/whois.go", "encoding/iam.go"],
  [("Who-Is codec", "encoding/whois.go"), ("I-Am codec", "encoding/iam.go")], ["octets, decoded fields, errors"])
p("C13", "Requests that cannot be expressed are refused instead of sent altered",
  "An object type, instance or property that does not fit its field, a value of an unsupported datatype, or a request that names no property makes encoding fail with an error; it is never masked into a different object, truncated or dropped. The client then returns that error and sends nothing.",
  ["inputs"], "all out-of-range identifiers, unsupported value types and empty property lists, for every kind of request",
  "The tests check a single invalid object type on one request type and never look at what is transmitted.",
  ["encoding/validate.go", "encoding/encoder.go", "encoding/readprop.go", "encoding/writeprop.go", "encoding/appdata.go", "readprop.go", "writeprop.go", "readmulti.go", "writemulti.go"],
  [("identifier validation", "encoding/validate.go"), ("sticky encoder error", "encoding/encoder.go")], ["encoder error", "client error and frames transmitted"])

p("C14", "A message with a damaged structure is refused, a well-formed one is not",
  "A value, service reply, error reply, I-Am or Who-Is whose structure the standard's grammar does not allow (a wrong, missing, repeated or misplaced tag, a tag of the wrong class, an opening without its closing tag, a value of a length its datatype cannot have) is reported as an error by its decoder, and a client that receives such a reply returns an error instead of data. Messages the grammar allows are accepted.",
  ["inputs"], "all messages made from well-formed ones by changing, dropping, repeating, inserting or swapping tags or changing the length of their content, at every position",
  "The tests decode well-formed packets; which damage at which position is tolerated by mistake is never tried.",
  ["encoding/readprop.go", "encoding/readmultipleack.go", "encoding/apdu.go", "encoding/iam.go", "encoding/whois.go", "encoding/appdata.go", "encoding/decoder.go", "encoding/date.go", "encoding/string.go"],
  [("tag and class checks", "encoding/readprop.go ReadProperty(), encoding/readmultipleack.go objectsWithData()"), ("length checks", "encoding/decoder.go invalidLength(), encoding/appdata.go fixedLength")], ["error returned by the decode call", "error or data returned by the client"])

# ------------------------------------------------------------------ client
p("K01", "Each concurrent request gets the answer to its own question or an error",
  "However many requests run at once and however replies are delayed, duplicated, reordered, lost or answered after a time-out, every request returns either the data the device sent for that very request or an error; never another request's data, not even if its answer arrives so late that its invoke id is in use again. No two outstanding requests share an invoke id, every request ends within its time-outs, and afterwards the client has its full capacity again.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of up to a few dozen concurrent reads and writes with per-reply delay, loss, duplication, reordering and lateness",
  "The tests that involve a network need a live device and are skipped or fail; none controls timing, loss or duplication.",
  ["device.go", "readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "tsm/transactions.go"],
  [("transaction ids", "tsm/transactions.go ID(), Put()"), ("reply dispatch", "device.go handleMsg()"), ("answers compared with the question", "replies.go checkAnswer()")],
  ["results of client calls", "frames on the data link"], [("outstanding transactions", "invoke id to waiting request", "tsm/transactions.go")])
p("K02", "A write succeeds if and only if the device acknowledged it",
  "A single or multiple write returns success only if the device acknowledged that request, and returns the device's error, or a time-out error, otherwise. A request is transmitted no more than the documented number of attempts, a lost write or multiple read is transmitted again and completed by the answer to that, each retransmission is identical to the first, and nothing is transmitted after success or after the call returned.",
  ["histories", "fault_sequences", "inputs"], "all sequences of device reactions (acknowledge, error, reject, abort, silence, late answer, garbage, answer of the wrong kind) to each attempt",
  "Needs scripted device behaviour and seconds-long time-outs; the tests have neither.",
  ["writeprop.go", "writemulti.go", "device.go", "tsm/transactions.go"],
  [("attempt loop", "writeprop.go, writemulti.go"), ("reply dispatch", "device.go handleMsg()")], ["result of the call", "frames on the data link and their times"])
p("K03", "Hostile, duplicated or unsolicited traffic never kills or wedges the client",
  "No sequence of received datagrams, valid, malformed, duplicated, unsolicited or arriving while requests and discoveries are running, makes the process crash or stops the client from working. After any such traffic, a request to a healthy device still succeeds and closing the client still ends its receive loop.",
  ["inputs", "histories", "schedules"], "all sequences of arbitrary datagrams interleaved with client operations",
  "The tests never inject traffic; crashes happen in background goroutines where a unit test does not look.",
  ["device.go", "tsm/transactions.go", "utsm/utsm.go", "encoding/decoder.go"],
  [("dispatch of received frames", "device.go handleMsg()"), ("reply hand-over", "tsm/transactions.go Send()"), ("announcement hand-over", "utsm/utsm.go Publish()")],
  ["process survival", "result of a probe request"])
p("K04", "The transaction manager hands each answer to its own transaction only",
  "Over any sequence of acquiring, answering, receiving and releasing transactions, ids in use are distinct and between 1 and 255, at most the configured number are in use, a released id becomes usable again, and data delivered to an id reaches only the transaction that held that id when it was delivered. Operations on ids that are not in use report an error, and no operation panics or blocks beyond its time-out.",
  ["histories", "schedules"], "all sequences and interleavings of the transaction operations, including data sent to ids that are released or reused concurrently",
  "The tests run one or two happy-path sequences.",
  ["tsm/transactions.go"], [("id and space pools", "tsm/transactions.go New(), ID(), Put()"), ("hand-over channel", "tsm/transactions.go Send(), Receive()")],
  ["results of each operation against a reference model"])
p("K05", "Subscribers receive exactly the announcements in their range while subscribed",
  "A subscription returns every announcement published for an id inside its range from the moment it is registered until it ends, exactly once, in publication order, and none outside its range. It ends when no announcement has arrived for its quiet period or when its overall time is up, whichever is first, and publishing never blocks indefinitely, panics or depends on a subscriber being ready.",
  ["histories", "schedules"], "all sequences of subscriptions with any ranges and time-outs and publications at any times, including bursts and publications at the moment a subscription ends",
  "The tests publish one or two items to one subscriber with real-time sleeps.",
  ["utsm/utsm.go", "utsm/subscriber.go"], [("publish to matching subscribers", "utsm/utsm.go Publish()"), ("quiet and overall time-out", "utsm/subscriber.go Subscribe()")],
  ["returned announcements and the time the call took"])
p("K06", "A multiple request larger than the device accepts is never transmitted",
  "A multiple read or write whose encoded size exceeds the size the device accepts, or a multiple read to a device with unknown size, fails with an error and transmits nothing. One that fits is transmitted complete and unmodified.",
  ["inputs"], "all request sizes around every device limit, with and without routing information",
  "The tests never exercise the limit.",
  ["readmulti.go", "writemulti.go", "btypes/device.go"], [("size check", "readmulti.go, writemulti.go"), ("unknown size check", "btypes/device.go CheckADPU()")], ["frames on the data link", "result of the call"])
p("K07", "Device discovery reports exactly the devices that announced themselves",
  "A discovery returns each device that announced itself inside the requested range once, with the announced id, size, segmentation, vendor, the address it can be reached at and, for devices behind a router, its network number and hardware address. Devices outside the range and malformed announcements are not reported, and announcements arriving at any time from the request until the quiet period or the overall limit ends are not missed.",
  ["histories", "inputs", "schedules"], "all sets and arrival times of announcements, duplicated, routed, forwarded, malformed, in and out of range, and all ranges",
  "The tests need live devices.",
  ["whois.go", "device.go", "utsm/utsm.go", "utsm/subscriber.go", "encoding/iam.go"],
  [("range subscription", "whois.go"), ("announcement dispatch", "device.go handleMsg()")], ["devices returned", "frames on the data link", "duration of the call"])
p("K08", "Network discovery reports exactly the networks that answered",
  "A network-number query returns the network numbers announced, and a router query returns every network that the answering routers announced, both in order of arrival, ignoring other traffic. Both queries are sent as broadcasts, and both end after the quiet period even if nobody answers.",
  ["histories", "inputs"], "all sets and arrival times of answers, router lists of any length, and unrelated traffic in between",
  "The tests need live routers.",
  ["whatnetwork.go", "whoisrouter.go", "device.go", "encoding/npdu.go"], [("network message dispatch", "device.go handleMsg()")], ["addresses returned", "frames on the data link"])
p("K09", "An object scan returns every object of the device with its name and description",
  "Scanning a device that answers correctly returns every object in its object list exactly once, with the device's name and description for each standard object, whatever the list length and whatever maximum size the device accepts, and no request exceeds that size. If the device fails or answers incompletely the scan reports an error; it never returns invented or misattributed objects and never crashes.",
  ["inputs", "fault_sequences", "configurations"], "all object lists (length 0..hundreds, any types and instances, proprietary types), device sizes, and failures or malformed answers at any step",
  "The tests need a live device; list lengths versus chunk sizes are unbounded.",
  ["objectlist.go", "readmulti.go", "readprop.go", "btypes/object_map.go", "btypes/device.go"],
  [("chunked object list", "objectlist.go objectList()"), ("names and descriptions in batches", "objectlist.go allObjectInformation()")], ["device returned", "frames on the data link"])
p("K10", "Every transmitted frame is well formed and addressed to the device asked for",
  "Each frame the client transmits has a link header with the correct type, function and total length, followed by a network header that names the device's network and hardware address when the device is behind a router, then the request; and it is handed to the data link for that device's address. Broadcast requests are marked as broadcasts and point-to-point requests as unicasts.",
  ["inputs", "configurations"], "all operations, device addresses (local, routed with 1..7 octet hardware addresses, broadcast) and request contents",
  "The tests never inspect a transmitted frame.",
  ["device.go", "encoding/bvlc.go", "encoding/npdu.go", "btypes/address.go", "btypes/device.go", "iam.go"], [("frame assembly", "device.go Send()"), ("routing address", "btypes/address.go SetLength()")], ["frames handed to the data link"])
p("K11", "Only genuine replies complete a request; forwarded frames are understood",
  "A pending request is completed only by an acknowledgement or error from the device that was asked, for the service asked for, carrying its invoke id: never by another station's reply, a reply to another service, a request, a network-layer message, an announcement, an incomplete frame or a frame of an unknown kind that happens to carry the same number. Frames relayed by a broadcast distributor are understood like direct ones, and devices heard through it are reported at their original address.",
  ["histories", "inputs"], "all sequences of confusable frames arriving before the genuine reply, in direct and forwarded form",
  "The tests never inject foreign traffic while a request is pending.",
  ["device.go", "replies.go", "encoding/apdu.go", "encoding/npdu.go"], [("dispatch of received frames", "device.go handleMsg()"), ("replies compared with the question", "replies.go isAnswer()")], ["result and time of the pending call", "devices returned by discovery"])
p("K12", "Full-size replies are received whole",
  "A reply of any size up to the largest the client advertises, including link and network headers with routing information, is received and decoded completely. It is never silently cut to a shorter value, and a segment of a longer reply, an incomplete datagram or an answer that lacks something that was asked for is never taken for the whole.",
  ["inputs", "configurations"], "all reply sizes up to the advertised maximum with every header layout, for the default and any configured buffer size",
  "The tests never receive a large reply.",
  ["device.go", "btypes/const.go", "datalink/udp.go"], [("receive buffer size", "device.go NewClient()")], ["decoded reply versus the reply sent"])
p("K13", "The UDP data link maps addresses faithfully and releases its port",
  "Datagrams sent to an address arrive unmodified at exactly that IPv4 address and port, received datagrams carry the sender's address, and the broadcast address is the subnet's for every address and prefix length. Closing the link ends a blocked receive with an error and frees the port at once; an unusable configuration is an error and never a crash.",
  ["inputs", "configurations"], "all IPv4 addresses, ports and prefix lengths, payloads up to datagram size, bad configurations, IPv6 senders",
  "The tests open one link on a fixed interface.",
  ["datalink/udp.go", "btypes/address.go", "device.go"], [("address conversion", "datalink/udp.go UDPToAddress(), btypes/address.go UDPAddr()"), ("listener", "datalink/udp.go dataLink()")], ["datagrams on loopback sockets", "addresses returned"])
p("K14", "Finished operations leave nothing behind",
  "However often requests, discoveries and announcements are repeated, with whatever outcome (answered, refused, timed out, not sendable, answered late or twice) and whatever is received meanwhile, a client that is idle again has no more goroutines and no more memory in use than before, and a closed client leaves nothing running.",
  ["histories"], "all repeated sequences of client operations, concurrent or not, with all replies, faults and unsolicited traffic, with one client or a new one each time",
  "The tests run each operation once; a leak per operation is invisible until a client has been in use for long.",
  ["utsm/utsm.go", "utsm/subscriber.go", "tsm/transactions.go", "device.go", "readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "whois.go"],
  [("subscriptions end", "utsm/utsm.go removeSubscriber()"), ("transactions end", "tsm/transactions.go Put()")], ["goroutines and live heap objects while the client is idle"],
  state=[("subscriptions", "who receives announcements", "utsm.Manager.subs"), ("transactions", "ids in use", "tsm.TSM.states")])
p("R01", "Concurrent use of one client is free of data races",
  "Any number of goroutines may use one client (reads, writes, discoveries, scans, closing) while traffic arrives, without any unsynchronised access to shared memory.",
  ["schedules"], "all interleavings of client operations with each other and with received traffic",
  "The test run is sequential and not race-instrumented.",
  ["device.go", "whois.go", "whatnetwork.go", "whoisrouter.go", "tsm/transactions.go", "utsm/utsm.go", "utsm/subscriber.go"],
  [("mutexes and channels", "tsm/transactions.go, utsm/utsm.go")], ["race detector reports"])

# ------------------------------------------------------------------ network package
p("N01", "Point reads return the device's value in the asked-for type",
  "Reading a point's present value, priority array, name or units through the network layer returns the value the device holds for exactly that object and property. A device error, or a value of another type than the asked-for one, is returned as an error by value reads.",
  ["inputs", "fault_sequences"], "all object types and instances, all values, all priority-array contents, and device errors",
  "The tests need a live device.",
  ["network/points.go", "network/read.go", "helpers/data/data.go", "btypes/priority/priority.go"], [("typed read", "network/points.go"), ("priority array builder", "btypes/priority/priority.go")], ["returned value versus the simulated device's state"])
p("N02", "Point writes change exactly the asked-for point, value and priority",
  "Writing or releasing a point through the network layer makes the device receive one write for exactly that object's present value, with the given value in the right datatype (null for a release) at the given priority. Priorities that do not exist and values of unsupported types are refused without sending anything, and a device error is returned.",
  ["inputs", "fault_sequences"], "all object types, instances, values, priorities 0..255 and device reactions",
  "The tests need a live device and look at nothing but the error.",
  ["network/points.go", "network/write.go"], [("typed write", "network/write.go Write()")], ["requests received by the simulated device", "returned error"])
p("N03", "The device's object list is returned complete, in order, in one read or many",
  "Listing a device's objects returns exactly the identifiers in the device's object list, in order, whether the device can return the whole list in one reply or only one element at a time, for every list length including zero and one. Failures are reported as errors and never as a crash or a list with missing or invented entries.",
  ["inputs", "fault_sequences"], "all object lists, devices that refuse whole-list reads, and errors or wrong datatypes at any element",
  "The tests need a live device.",
  ["network/objects.go", "network/discover.go", "helpers/data/data.go"], [("whole-list read and element-wise fallback", "network/objects.go")], ["returned list versus the simulated device's list"])
p("N04", "Discovery through the network layer describes each device found",
  "Discovering devices through the network layer returns one entry per announced device, each with that device's own id, address, size, segmentation, name and vendor; entries never describe one another. Device details report the values the device holds.",
  ["inputs", "histories"], "all sets of announced devices with any names, vendors and sizes",
  "The tests need live devices.",
  ["network/discover.go", "network/whois.go", "network/device.go"], [("per-device detail reads", "network/discover.go, network/whois.go")], ["returned entries versus the simulated devices"])
p("N05", "The store returns what was last put under an id, or an error",
  "Looking up a network or device by id returns the one most recently stored or updated under that id, and an error if nothing was stored or the entry is of the other kind; an updated device is addressed with its updated parameters. It never crashes and never returns another id's entry.",
  ["histories"], "all sequences of storing, updating and looking up networks and devices under any ids",
  "The tests store and read one entry.",
  ["network/store.go", "network/device.go", "network/base.go", "helpers/store/init.go"], [("cache", "helpers/store/init.go")], ["lookup results against a map model", "frames received by the simulated device"])

# ------------------------------------------------------------------ types and helpers
p("T01", "Object maps survive being saved and loaded",
  "Converting any object map to JSON and back yields the same objects (identifiers, names, descriptions, properties) under the same types and instances, including proprietary and unnamed object types, and loading malformed JSON reports an error. Every object type's text form converts back to that type.",
  ["inputs"], "all object maps, all 1024 object types, malformed documents",
  "The single test marshals one small map.",
  ["btypes/object_map.go", "btypes/object.go"], [("type names", "btypes/object.go"), ("JSON codec", "btypes/object_map.go")], ["map after the round trip", "errors"])
p("T02", "Bit strings hold exactly the bits put into them",
  "Over any sequence of operations a bit string behaves like a list of bits bounded by its capacity: reading a bit returns what was last written, the used length is one past the highest bit written, whole-octet access agrees with bit access, and out-of-range operations change nothing and never crash.",
  ["histories", "inputs"], "all sequences of bit and octet operations on bit strings of every capacity",
  "No test covers it.",
  ["btypes/bitstring.go"], [("bit operations", "btypes/bitstring.go")], ["observations against a reference model"])
p("T03", "Addresses convert between UDP, text and BACnet form without loss",
  "For every IPv4 address and port, converting to a BACnet address and back returns the same address and port, the device constructor puts the given address, port, network and hardware address into that form and refuses those that don't fit, and broadcast addresses are recognised exactly by the documented rules. Malformed input is an error or an empty result, never a crash.",
  ["inputs"], "all IPv4 addresses, ports, network numbers, hardware addresses, and arbitrary text and octets",
  "The tests convert a couple of addresses.",
  ["btypes/address.go", "btypes/device.go", "datalink/udp.go", "helpers/ipbytes/ip.go"], [("conversion", "btypes/address.go, datalink/udp.go, helpers/ipbytes/ip.go")], ["converted values"])
p("T04", "The priority array reports each slot's own value and the highest active one",
  "Building a priority array from a device's reply puts each of the 16 values in its own slot, keeps empty slots empty, and the highest-priority active value is the first non-empty slot's. Replies that are short, long, empty or of other datatypes never crash it.",
  ["inputs"], "all arrays of 0..20 entries of nulls and numeric values for every object type",
  "No test covers it.",
  ["btypes/priority/priority.go"], [("array builder", "btypes/priority/priority.go")], ["slots against a reference model"])
p("T05", "Address, port and prefix validation accepts exactly the valid ones",
  "The validators accept exactly the textual IPv4/IPv6 addresses (optionally with a single-host prefix), the port numbers up to 65535 and the address/prefix pairs that are valid, and reject every other input without crashing.",
  ["inputs"], "all strings and integers, valid, near-valid and arbitrary",
  "The tests check a few literals.",
  ["helpers/validation/vaildation.go", "helpers/ipbytes/ip.go"], [("validators", "helpers/validation/vaildation.go")], ["verdict against an independent oracle"])
p("T06", "Names of types, properties, errors and units are unambiguous and reversible",
  "Every name table maps distinct names to distinct identifiers, looking up an identifier's name and then that name's identifier returns the identifier, error classes and codes, units and services print the name the standard gives them and services know their standard position in a device's bit string, and unknown identifiers print a text that no known identifier has, without crashing.",
  ["inputs"], "all identifiers of each table and arbitrary unknown ones",
  "The tests print a few entries.",
  ["btypes/property.go", "btypes/object.go", "btypes/bacerr/bacerr.go", "btypes/bacerr/errorcode_string.go", "btypes/units/units.go", "btypes/units/unit_string.go", "btypes/services/services.go", "btypes/segmentation", "btypes/ndpu"],
  [("name tables", "btypes")], ["names and identifiers"])
p("T07", "Typed accessors return the reply's value or say that it has another type",
  "Reading a reply as a given type (text, number, boolean, bit string, list) returns the carried value exactly when it has that type; otherwise it reports failure with a neutral value. Replies with no properties or unexpected datatypes never crash the accessors.",
  ["inputs"], "all replies with zero or more properties of every datatype, for every accessor",
  "No test covers them.",
  ["helpers/data/data.go", "network/points.go"], [("accessors", "helpers/data/data.go")], ["returned value and failure indication"])
p("T08", "Helpers for paths and kept values give back what was put in",
  "A path that starts with the user's home directory's mark is expanded below that directory, another user's is refused and any other path stays as it is. A value put into the helper store is returned until it expires or is replaced, never afterwards, and never under another key.",
  ["inputs", "histories"], "all texts of paths and home directories; all histories of sets, looks and waits",
  "No test covers them.",
  ["helpers/homedir/homedir.go", "helpers/store/init.go"], [("paths", "helpers/homedir/homedir.go"), ("kept values", "helpers/store/init.go")], ["expanded paths, returned values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
    assert len({q["id"] for q in P}) == len(P)
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
