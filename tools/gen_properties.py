#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the statements are
easy to review and diff)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m} for m in mech]}})

p("C01", "AMF0 round trip: what is encoded is what is decoded",
  "Any value built from null, undefined, booleans, numbers, text, dates, lists and tuples, dictionaries, mixed arrays, XML and instances of registered or unregistered classes, nested in any way, encodes to AMF0 and decodes to the equal value of the corresponding type, using exactly the bytes that were written. Integral numbers come back as integers, all other numbers bit for bit, and text code point for code point, including text and keys longer than a short length prefix allows or outside ASCII. A value AMF0 cannot carry is refused with an encode error instead of yielding bytes that decode to something else.",
  ["inputs"], "every value tree over the encodable types, any size, nesting, key set and sharing",
  "Tests round-trip a few dozen literal values one type at a time; combinations of nesting, sharing, long strings, odd keys and mixed containers are unbounded.",
  ["pyamf/amf0.py", "pyamf/codec.py", "pyamf/__init__.py", "pyamf/util/__init__.py"],
  ["AMF0 Encoder/Decoder type dispatch and per-type read/write pairs", "reference table shared by encoder and decoder", "codec.Encoder.getTypeFunc"])
p("C02", "AMF3 round trip: what is encoded is what is decoded",
  "Any value built from null, undefined, booleans, integers, floats, text, dates, lists and tuples, dictionaries, mixed arrays, XML, byte arrays, Flex collections and object proxies, and instances of registered or unregistered classes, nested in any way, encodes to AMF3 and decodes to the equal value of the corresponding type, using exactly the bytes that were written. Integers keep their exact value and stay integers within 29 bits, floats come back bit for bit and text code point for code point. Keys AMF3 cannot carry are refused with an error instead of yielding bytes that decode to something else.",
  ["inputs"], "every value tree over the encodable types, any size, nesting, key set, string repetition and sharing",
  "Tests round-trip literal values one type at a time; the three AMF3 reference tables interact across the whole payload, so correctness depends on everything written before a value.",
  ["pyamf/amf3.py", "pyamf/codec.py", "pyamf/flex/__init__.py", "pyamf/alias.py"],
  ["AMF3 Encoder/Decoder", "string, object and class reference tables in amf3.Context", "encode_int/decode_int"])
p("C03", "AMF0 output is well-formed and means the encoded value to any reader",
  "For every encodable value, the AMF0 bytes produced are a complete, well-formed AMF0 item that an independent reader following the published format recovers as the same value: right type marker, exact length prefixes, references that point at the intended object, class names for registered classes, and no bytes left over.",
  ["inputs"], "every encodable value tree, including sharing, cycles and values that switch to AMF3 mid-stream",
  "Tests compare bytes of small literals; a round trip through the same library hides errors made symmetrically by both sides, and reference indexes depend on the whole payload.",
  ["pyamf/amf0.py", "pyamf/codec.py"], ["AMF0 Encoder write methods", "AMF0 reference table", "switch to AMF3 via the avmplus marker"])
p("C04", "AMF3 output is well-formed and means the encoded value to any reader",
  "For every encodable value, the AMF3 bytes produced are a complete, well-formed AMF3 item that an independent reader following the published format recovers as the same value: exact variable-length integers and lengths, string, object and trait references that resolve to the intended entry, trait headers that match the members that follow, and no bytes left over.",
  ["inputs"], "every encodable value tree, including sharing, cycles, repeated strings and repeated classes",
  "Tests compare bytes of small literals; a round trip through the same library hides symmetric errors, and reference indexes depend on the whole payload.",
  ["pyamf/amf3.py", "pyamf/codec.py", "pyamf/flex/__init__.py"], ["AMF3 Encoder write methods", "ClassDefinition and trait references", "string reference table"])
p("C05", "AMF0 decoder reads every well-formed AMF0 item as the value it denotes",
  "Any well-formed AMF0 item, whichever legal encoding choices its producer made (back-references or repeated copies, short or long strings, strict or associative arrays with any length hint, typed or anonymous objects, an embedded AMF3 value), decodes to the value it denotes, with class names mapped to registered classes, and leaves the stream positioned right after it.",
  ["inputs"], "every well-formed AMF0 byte sequence a conforming producer could send",
  "Tests decode hand-written samples and bytes PyAMF itself produced; other producers make choices PyAMF never makes.",
  ["pyamf/amf0.py"], ["AMF0 Decoder read methods", "reference table"])
p("C06", "AMF3 decoder reads every well-formed AMF3 item as the value it denotes",
  "Any well-formed AMF3 item, whichever legal encoding choices its producer made (inline or referenced strings, objects, dates, XML, byte arrays and traits; sealed, dynamic, mixed or externalizable classes; dense, associative or mixed arrays; non-minimal variable-length integers), decodes to the value it denotes, with class names mapped to registered classes, and leaves the stream positioned right after it.",
  ["inputs"], "every well-formed AMF3 byte sequence a conforming producer could send",
  "Tests decode hand-written samples and bytes PyAMF itself produced; Flash players make choices PyAMF's encoder never makes (sealed+dynamic traits, string references inside trait headers, mixed arrays).",
  ["pyamf/amf3.py", "pyamf/codec.py"], ["AMF3 Decoder read methods", "string/object/class reference tables"])
p("C07", "Object identity survives encoding: sharing, cycles and distinctness",
  "In both formats, after encoding and decoding a value graph, two positions hold the same object exactly when they held the same object before, for lists, dictionaries, mixed arrays, class instances and (AMF3) byte arrays: shared objects are decoded once and shared, cycles of any length close on the same object, and equal but distinct objects stay distinct. This holds across all the values encoded with one encoder and decoded with one decoder.",
  ["inputs"], "every value graph with arbitrary sharing and cycles, over one or several values of one stream",
  "Tests cover self-reference and single sharing per type; numbering mistakes only show with particular mixes of referenceable and non-referenceable types before a back-reference.",
  ["pyamf/codec.py", "pyamf/amf0.py", "pyamf/amf3.py", "pyamf/flex/__init__.py"],
  ["IndexedCollection", "addObject/getObject order in encoder and decoder", "AMF0 to AMF3 context switch"])
p("C08", "Malformed AMF never decodes silently to a wrong value",
  "Decoding arbitrary bytes terminates, and either yields the value those bytes denote or raises: a truncated item signals end of data, an unknown type marker or a malformed item a decode error, and a reference to a string, object or class that was never sent a reference error. No input makes the decoder invent a value, loop, or import or instantiate anything other than registered or importable classes named in the input.",
  ["inputs"], "all byte strings: random, truncated, and mutated from valid AMF0 and AMF3 items",
  "Tests try a handful of broken inputs; the input space is every byte string a client can send.",
  ["pyamf/codec.py", "pyamf/amf0.py", "pyamf/amf3.py", "pyamf/__init__.py"],
  ["Decoder._readElement", "reference lookups", "load_class"])
p("C09", "Element streams and incremental feeding",
  "Several values encoded one after another decode, one by one and in order, to the same values, whether encoded in one call or fed to the encoder one at a time (which returns exactly the bytes of that value), and whether the decoder gets all bytes at once or in pieces. When the bytes stop before or inside a value, the decoder signals end of data without consuming the partial value.",
  ["histories", "inputs"], "every sequence of values, every split of the bytes into pieces, every interleaving of feeding and reading",
  "Tests feed a few fixed values; the number of splits and interleavings is unbounded and end-of-data can fall inside any field.",
  ["pyamf/codec.py", "pyamf/__init__.py", "pyamf/util/pure.py"],
  ["Decoder.send/next", "Encoder.send/next", "seek back on IOError"])
p("C10", "AMF3 integers: every 29-bit value, every boundary, any order",
  "Every integer from -2^28 to 2^28-1 is written as a variable-length integer in the minimal number of bytes and read back exactly; integers outside that range are written as floating point with the nearest double value, and a direct request to write one as a variable-length integer is refused. None of this depends on which integers were written or read before.",
  ["inputs", "histories"], "every integer, and every sequence of integers in one process",
  "Tests check a dozen integers each from a fresh start; encoded integers are cached process-wide, so an answer may depend on history.",
  ["pyamf/amf3.py"], ["encode_int and its cache", "decode_int", "Encoder.writeInteger"])
p("C11", "Encoding and decoding do not depend on what happened before",
  "Encoding a value with a fresh or cleared context yields bytes that decode to it no matter which values were encoded or decoded, successfully or with an error, earlier in the process, and decoding the same bytes yields an equal value every time. Encoding never changes the value being encoded, and decoding never aliases objects of another decode.",
  ["histories"], "every history of encode and decode calls (including failing ones) before the observed call",
  "Tests run each call against a clean state; process-wide caches (class aliases, encoded integers, type maps) and per-encoder caches make history matter.",
  ["pyamf/codec.py", "pyamf/amf3.py", "pyamf/alias.py", "pyamf/__init__.py"],
  ["CLASS_CACHE", "ENCODED_INT_CACHE", "Encoder._func_cache", "Context.clear"])
p("C12", "Dates keep their instant, and time zone offsets cancel",
  "Every date and time that can be represented is written as its UTC milliseconds since 1970, including dates before 1970 and fractions of a second, and reads back as the same instant to the millisecond or better. With a time zone offset configured, encoding subtracts it and decoding adds it, in both formats, wherever the date occurs, so the same offset on both ends cancels; plain dates behave as midnight, and bare times are refused.",
  ["inputs", "configurations"], "every date or datetime, every offset, both formats, at any nesting (including AMF3 inside AMF0)",
  "Tests use two or three dates, none before 1970 with a fraction and none combining plain dates with offsets.",
  ["pyamf/util/__init__.py", "pyamf/amf0.py", "pyamf/amf3.py"],
  ["get_timestamp/get_datetime", "readDate/writeDate", "timezone_offset propagation"])
p("C13", "Class mapping: names on the wire and instances in Python correspond",
  "An instance of a class registered under a name is written under exactly that name (any text, including non-ASCII) with its attributes, inherited ones included, and reads back as an instance of that class with those attributes; an instance of an unregistered class is written as an anonymous object. A received name nobody registered yields a typed object remembering the name and all attributes, or an unknown-class error in strict mode, at any nesting and also for AMF3 values inside AMF0.",
  ["inputs", "programs"], "every class shape (old/new style, slots, inheritance, external), every alias text, every attribute set, strict and lax",
  "Tests register a few fixed classes under simple dotted ASCII names.",
  ["pyamf/alias.py", "pyamf/__init__.py", "pyamf/amf0.py", "pyamf/amf3.py"],
  ["register_class", "ClassAlias.compile", "getClassAlias", "TypedObjectClassAlias"])
p("C14", "Attribute control when sending: nothing excluded ever leaves",
  "When an instance is encoded, the attributes sent are exactly those its class configuration (and that of its bases) allows: excluded attributes never appear in the bytes, static attributes always appear (undefined if missing) and as sealed members, other attributes only if the class is dynamic, and synonyms are sent under their wire name. This holds for every combination of static, excluded, read-only, proxied, synonym, dynamic, slots and property declarations, inherited or not, for ordinary and dictionary-like classes, in both formats.",
  ["programs", "inputs"], "every class configuration, inheritance chain and instance state",
  "Tests check each option alone on fixed classes; leaks come from combinations of options and inheritance.",
  ["pyamf/alias.py", "pyamf/amf0.py", "pyamf/amf3.py", "pyamf/util/__init__.py"],
  ["ClassAlias.compile/_finalise_compile", "getEncodableAttributes"])
p("C15", "Attribute control when receiving: nothing forbidden is ever set",
  "When an object is decoded, its attributes are set to exactly the received ones its class configuration (and that of its bases) allows: read-only and excluded attributes are never set, unknown attributes only if the class is dynamic, synonyms are mapped back, and proxied attributes unwrapped; missing static attributes are an error. Every allowed attribute is set to the received value, whatever other attributes came with it.",
  ["programs", "inputs"], "every class configuration, inheritance chain and received attribute set",
  "Tests check each option alone; dropping or leaking attributes depends on which combination of options and attributes meets.",
  ["pyamf/alias.py", "pyamf/util/__init__.py"], ["getDecodableAttributes", "applyAttributes", "util.set_attrs"])
p("C16", "Registries behave as the documented maps over any history",
  "Over any sequence of registering and unregistering classes, packages, class loaders, alias types, custom types and error classes, lookups answer exactly as the documented map semantics prescribe: a registered class is found by class and by name, the latest registration of a class or name is the one in force, removed ones are not found, invalid arguments and duplicate types, alias types, loaders and error codes are refused with the documented error and change nothing, and a loader or importable class is consulted only when no registration answers.",
  ["histories"], "every sequence of registry operations, including failing ones",
  "Tests exercise one or two operations each from a clean registry.",
  ["pyamf/__init__.py", "pyamf/util/__init__.py"],
  ["CLASS_CACHE", "CLASS_LOADERS", "ALIAS_TYPES", "TYPE_MAP", "ERROR_CLASS_MAP", "register_package"])
p("C17", "Custom type mappings and standard-library adapters",
  "Values of adapted types (the sets module's sets, deques, arrays, default and ordered dictionaries, counters, decimals, weak references, user-registered types and predicates) are encoded, at any position and in any mix with other values, exactly as the plain value their mapping yields, in both formats. Whether a mapping applies depends only on the value and the registered mappings, not on values encoded before it.",
  ["inputs", "histories", "configurations"], "every value containing adapted types, every set of registered mappings, every order",
  "Tests encode one adapted value at the top level; encoders cache the choice per type, so order and mix matter.",
  ["pyamf/adapters/_array.py", "pyamf/adapters/_collections.py", "pyamf/adapters/_decimal.py", "pyamf/adapters/_sets.py", "pyamf/adapters/_weakref.py", "pyamf/adapters/util.py", "pyamf/codec.py"],
  ["pyamf.TYPE_MAP", "codec._CustomTypeFunc", "Encoder._func_cache", "adapters.util.to_*"])
p("C18", "The byte stream behaves as a byte buffer with a cursor",
  "Over any sequence of typed reads and writes, seeks within the stream, peeks, appends, truncations and consumptions in any byte order, the stream's contents, position, length and return values are those of an ideal byte buffer with a cursor: a value written is read back equal, values out of range or of the wrong type are refused without changing the stream, and reading past the end raises and leaves the position unchanged.",
  ["histories", "inputs"], "every sequence of stream operations with every argument",
  "Tests check each operation from a fresh short buffer in one or two byte orders.",
  ["pyamf/util/pure.py"], ["BufferedByteStream", "DataTypeMixIn", "StringIOProxy"])
p("C19", "Byte arrays and externalizable classes own their byte format",
  "Data written through the data-output interface is read back equal through the data-input interface in the same order, on a byte array and inside any externalizable object, with objects, strings and raw bytes freely mixed, and the surrounding values decode unaffected. Reading text whose bytes are not valid in their charset, or missing, raises an error instead of yielding other text. A byte array keeps its exact content, compressed or not, through encoding and decoding, and shares its identity when it occurs twice.",
  ["histories", "inputs"], "every sequence of data-output operations, every content, compressed or not, at any place in a payload",
  "Tests write one or two primitives at a time; interplay with the reference tables and the rest of the payload is not covered.",
  ["pyamf/amf3.py", "pyamf/util/pure.py"], ["DataInput/DataOutput", "ByteArray", "external classes in Encoder.writeObject/Decoder.readObject"])
p("C20", "XML round-trips, and DTDs and entities are refused everywhere by default",
  "Any XML element tree survives encoding and decoding in both formats with the same tags, attributes, text and children, wherever it occurs. Unless explicitly allowed, a received XML document with a document type or an entity declaration is refused at every entry point (AMF0, AMF3, AMF3 inside AMF0, byte arrays, shared objects, remoting requests and responses), and when allowed by the caller the permission reaches every nested value.",
  ["inputs", "configurations"], "every XML tree, every DTD/entity payload, every entry point and flag combination",
  "Tests cover a fixed XXE document at the top level of each format only.",
  ["pyamf/xml.py", "pyamf/amf0.py", "pyamf/amf3.py", "pyamf/codec.py"],
  ["xml.fromstring defaults", "Context.forbid_dtd/forbid_entities", "flag propagation to nested decoders"])
p("C21", "Local shared objects survive saving and loading",
  "A shared object with any name and any set of named values written in either format is read back, from bytes, an open file or a path, with the same name and equal values. Its header always states the exact remaining length, and in strict mode any damaged header, wrong length, missing terminator or truncation is refused with an error rather than read as different data.",
  ["inputs"], "every name, value dictionary and encoding; every truncation or header corruption of a valid file",
  "Tests save one or two fixed dictionaries and corrupt one header field each.",
  ["pyamf/sol.py"], ["sol.encode/decode/load/save", "SOL dict"])
p("C22", "Remoting envelopes survive encoding and decoding",
  "A remoting envelope with any version, headers (names, required flags, values) and any number of requests and responses (targets, response ids, statuses, bodies) encodes to bytes that decode to an equal envelope, in order, for text of any alphabet. Header and body length fields written are exact byte lengths or the documented unknown marker, counts are exact, and each message body is decodable on its own.",
  ["inputs"], "every envelope: any headers, any messages, any bodies, both AMF versions, strict or not",
  "Tests build a few envelopes with one or two ASCII messages.",
  ["pyamf/remoting/__init__.py"], ["remoting.encode/decode", "_read_header/_write_header", "_read_body/_write_body", "HeaderCollection"])
p("C23", "Broken remoting envelopes are refused, never misread",
  "Decoding any byte string as a remoting envelope terminates and either yields an envelope holding what those bytes state or raises a decode, end-of-stream or other documented error. In strict mode a header or body whose stated length differs from its actual size is refused, an unsupported version is always refused, and a truncated envelope is never returned as a complete one.",
  ["inputs"], "all byte strings; every truncation and every single-field corruption of valid envelopes",
  "Tests try a handful of malformed envelopes.",
  ["pyamf/remoting/__init__.py"], ["remoting.decode", "_read_header/_read_body strict length checks"])
p("C24", "Gateway: every request gets exactly its own answer, faults stay contained",
  "For every batch of requests the gateway answers each request under its own response id, with the result (any value AMF can carry) of calling exactly the service method the target names with exactly the arguments sent, or with an error describing that request's failure. A request that fails (unknown service, bad arguments, exception in the service) never affects the answers to others, and names that are not registered services or public methods of them are never called.",
  ["inputs", "histories", "configurations"], "every set of services, every batch of requests with valid and invalid targets, arguments and failing methods",
  "Tests send one request at a time to fixed services.",
  ["pyamf/remoting/gateway/__init__.py", "pyamf/remoting/amf0.py", "pyamf/remoting/__init__.py"],
  ["BaseGateway.getProcessor/callServiceRequest", "ServiceWrapper", "RequestProcessor"])
p("C25", "Gateway: authentication and hooks guard every call",
  "If an authenticator applies to a request (set on the method, the service or the gateway, the most specific one winning), the service method runs only after that authenticator accepted exactly the credentials sent, and otherwise the caller gets an authentication error and the method does not run. Preprocessors likewise run before the method, with the service request (and, for Flex remote objects, the arguments), following the same precedence, and the request object is passed to exactly those methods configured to receive it.",
  ["configurations", "inputs", "histories"], "every combination of gateway, service and method settings with every credential and request",
  "Tests check each setting at one level at a time.",
  ["pyamf/remoting/gateway/__init__.py", "pyamf/remoting/amf0.py"],
  ["getAuthenticator/getPreprocessor/mustExposeRequest", "authenticate/preprocess/expose_request decorators", "authenticateRequest"])
p("C26", "HTTP gateways answer any request body with a proper HTTP response",
  "For any HTTP method and body, the WSGI, Django and App Engine gateways return one well-formed response: a well-formed AMF request gets status 200 and an AMF body answering each message; a malformed body (truncated, garbled, left-over bytes in strict mode, text that is not UTF-8) an error status, 400 wherever the fault is in the AMF structure; a method other than POST is refused (WSGI 400, the others 405); an internal failure gets status 500; all with a matching content length and without raising into the server. Tracebacks and internal details appear in responses only when debugging is enabled.",
  ["inputs", "configurations", "fault_sequences"], "every method, header set and body (valid, truncated, mutated, random), debug on and off, failing services",
  "Tests send a few fixed bodies.",
  ["pyamf/remoting/gateway/wsgi.py", "pyamf/remoting/gateway/django.py", "pyamf/remoting/gateway/__init__.py"],
  ["WSGIGateway.__call__", "DjangoGateway.__call__", "debug handling in build_fault"])
p("C27", "Flex remote objects: every message is acknowledged or faulted by its own reply",
  "For every Flex message sent over remoting, the reply is an acknowledge message (or error message on failure) whose correlation id is the request's message id, carrying the result of exactly the named operation of the named destination with exactly the arguments sent. Pings and unsupported operations are answered as such, error replies name the failure and carry details only in debug mode, and one message's failure does not affect others in the batch.",
  ["inputs", "configurations"], "every batch of command and remoting messages, any destinations, operations, bodies and failures",
  "Tests send one message at a time.",
  ["pyamf/remoting/amf3.py", "pyamf/flex/messaging.py"],
  ["amf3.RequestProcessor", "generate_acknowledgement/generate_error"])
p("C28", "Remoting client: each caller gets the answer to its own request",
  "Whatever requests are queued on a client, the bytes sent encode exactly those calls with their arguments, headers and distinct ids, each queued request is sent once by the execution it was queued for, and each response is found under the request it answers (in the returned envelope, or returned by an automatic call), in whatever order the server replies; an error response is raised as the exception registered for its code. Added headers are sent until removed, removed requests are not sent, replies can redirect the client and add persistent headers, and non-AMF or failing HTTP replies raise a remoting error.",
  ["histories", "inputs", "fault_sequences"], "every history of queued, removed and executed requests and headers, every reply order and content, every HTTP failure",
  "Tests use one request and one canned reply.",
  ["pyamf/remoting/client/__init__.py", "pyamf/remoting/__init__.py"],
  ["RemotingService.addRequest/removeRequest/execute", "_getResponse", "setFault/ErrorFault.raiseException"])
p("C29", "Flex collections behave as lists under any history",
  "Over any sequence of operations an array collection's items, length and results are those of an ideal list with the documented bounds checks, refused operations change nothing, and its encoded form always decodes to a collection with the same items. An object proxy reads and writes exactly the attributes of the object it wraps.",
  ["histories"], "every sequence of collection and proxy operations with any indexes and items",
  "Tests call each method once or twice.",
  ["pyamf/flex/__init__.py"], ["ArrayCollection IList methods", "ObjectProxy.__getattr__/__setattr__"])
p("C30", "Flex small messages carry the same content as their full form",
  "Every acknowledge, async and command message, with any combination of fields set, encoded in its compact form decodes to a message of the same kind with equal fields (times count milliseconds and come back as dates, ids that are UUIDs travel as 16 bytes), and a compact message written by a Flex client with any legal flag bytes (those whose bits the format defines) decodes to the fields it carries. Converting a message to its compact form keeps all its fields, and the gateway's answer to a compact message names the message it answers.",
  ["inputs"], "every combination of set fields and values for every message class, every legal flag byte sequence",
  "Tests decode a couple of captured messages.",
  ["pyamf/flex/messaging.py"], ["AbstractMessage.__readamf__/__writeamf__", "getSmallMessage", "encode_flags/decode flags"])
p("C31", "Import hooks run exactly once per module, on import or at once",
  "Over any sequence of registering hooks and importing modules, each hook runs exactly once with its module: immediately if the module is already imported, otherwise when it is first imported, in registration order, and never for a module that fails to import. Imports themselves return the same modules they would return without hooks.",
  ["histories"], "every interleaving of hook registration and imports of packages, submodules, and failing modules",
  "Tests cover one hook before and after one import.",
  ["pyamf/util/imports.py", "pyamf/adapters/__init__.py"], ["ModuleFinder", "when_imported"])
p("C32", "Flex proxies: wrapping on send, unwrapping on receipt",
  "With proxying enabled, every list is sent as an array collection and every dictionary as an object proxy, recursively, and a decoder with proxying enabled returns the plain values again, equal to those sent and with sharing preserved; other values are unaffected. Attributes declared as proxied get the same treatment individually whether or not proxying is enabled.",
  ["inputs", "configurations"], "every value tree, proxying on or off at either end",
  "Tests proxy one list and one dictionary.",
  ["pyamf/amf3.py", "pyamf/flex/__init__.py", "pyamf/alias.py"],
  ["Encoder.writeProxy/Decoder.readProxy", "Context.getProxyForObject/getObjectForProxy"])
p("C33", "Remote errors become the exceptions they name",
  "An exception raised while serving a request reaches the client as an error carrying its type name and message, and the client raises the exception class registered for that code, or a remoting error if none is, with the original message. Error codes can be registered and removed at any time, and the mapping in force when the error is raised decides.",
  ["histories", "inputs"], "every exception type and message, every history of error-class registrations",
  "Tests check one or two built-in exceptions.",
  ["pyamf/remoting/__init__.py", "pyamf/remoting/amf0.py", "pyamf/__init__.py"],
  ["build_fault", "BaseFault.raiseException", "ERROR_CLASS_MAP", "get_exception_from_fault"])
p("C34", "Services without a network: client and gateway agree end to end",
  "A call made through the client's service proxies against a gateway returns to the caller what the service method returns for the arguments given, as if both had been passed through AMF, for any mix of services, methods, AMF versions, credentials and batches; calls that fail on the server fail at the caller and only there.",
  ["inputs", "histories", "configurations"], "every sequence of calls, batches and header changes between a client and a gateway",
  "Tests exercise client and gateway separately against canned bytes.",
  ["pyamf/remoting/client/__init__.py", "pyamf/remoting/gateway/__init__.py", "pyamf/remoting/gateway/wsgi.py"],
  ["ServiceProxy/ServiceMethodProxy", "RemotingService.execute", "WSGIGateway"])
p("C35", "The compiled codec agrees with the pure Python codec",
  "Whatever value is encoded or decoded, the optional compiled codec and the pure Python codec produce the same bytes, the same values and the same errors.",
  ["inputs"], "every value and byte string", "Tests run the same cases against whichever implementation is importable.",
  ["cpyamf/amf0.pyx", "cpyamf/amf3.pyx", "cpyamf/codec.pyx", "cpyamf/util.pyx"], ["Cython reimplementation of the codecs"])

p("C36", "Threads: concurrent use gives each thread what it would get alone",
  "When several threads encode, decode or send requests to one gateway at the same time, each with encoders, decoders and values of its own, every one of them gets exactly the bytes, values, answers or errors it would get if it were alone, however they are interleaved - also when they are the first to use the classes involved, and when classes are loaded on demand.",
  ["schedules", "inputs"], "every interleaving of threads at the granularity of source lines, every class declaration and value",
  "No test uses more than one thread.",
  ["pyamf/alias.py", "pyamf/__init__.py", "pyamf/codec.py", "pyamf/amf3.py", "pyamf/remoting/gateway/__init__.py"],
  ["ClassAlias.compile", "load_class/CLASS_CACHE", "encode_int cache", "BaseGateway"])
p("C37", "Twisted gateway: every answer finds its request whatever finishes first",
  "Whatever the order in which worker threads, authenticators, preprocessors and services behind a Twisted gateway finish, at once or through Deferreds, every HTTP request is answered exactly once, and its answer holds exactly one answer for each of its requests, in their order: the value or fault of that very call. Authenticators and preprocessors guard plain and RemoteObject requests alike, a failure stays with its own request, a damaged body is answered with 400 and an answer that cannot be encoded with 500.",
  ["schedules", "inputs", "faults"], "every order in which deferred work completes, every mix of services, hooks and requests, also over several HTTP requests at once",
  "The repository's tests of this gateway need Twisted, are skipped without it, and send one request at a time.",
  ["pyamf/remoting/gateway/twisted.py", "pyamf/remoting/amf3.py", "pyamf/remoting/amf0.py"],
  ["TwistedGateway.getResponse/sendResponse", "AMF0RequestProcessor", "AMF3RequestProcessor"])
p("C38", "Record sets survive encoding and decoding",
  "A RecordSet with any columns, rows of any values, service and id is sent in both formats as the typed object Flash expects (its serverInfo stating the number of rows, the rows, the columns and, when set, the service name and id), and what is decoded - also from bytes another implementation wrote - has the same columns, rows, service and id, wherever and however often it occurs in a payload. Record sets share nothing they were not given.",
  ["inputs"], "every record set at every place in a payload, in both formats",
  "Tests encode and decode one record set of plain ASCII text in AMF0.",
  ["pyamf/amf0.py", "pyamf/alias.py"], ["RecordSet"])

p("C39", "Django models cross the wire as the values of their fields",
  "An instance of a Django model - plain, proxy, inherited, with an abstract base, registered or not, saved or not - is encoded as the values of all its fields: dates as midnight of the day, times as that time on 1 January 1970, files as their names, values not provided as undefined; its properties and further attributes; its related objects exactly where they are already loaded, never their raw keys, and never by asking the database; its many-to-many relations as lists (empty while it is not saved); nothing whose name begins with an underscore; and what the class declares excluded is not sent (so a user's password never is), renamed is sent renamed. Instances of one model with one primary key are one object in what is encoded, others are not. Query sets are lists, translations text. When objects are decoded, all or some of the fields present, one whose own primary key names a stored row becomes that row with what was received on top; the values are those the fields had; files, properties without setter, names declared read-only and the model's internal state are never written from the outside; a key of 0 is that of a new row.",
  ["inputs", "histories"], "every model instance, relations loaded or not, repeated rows, and every object a client may send for it",
  "Tests use single instances of each kind with every field present, and need a database driver.",
  ["pyamf/adapters/_django_db_models_base.py", "pyamf/adapters/_django_db_models_fields.py", "pyamf/adapters/_django_db_models_query.py", "pyamf/adapters/_django_utils_translation.py", "pyamf/adapters/_django_contrib_auth_models.py"],
  ["DjangoClassAlias", "writeDjangoObject"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
