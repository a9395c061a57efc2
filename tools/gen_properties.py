#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

BASE = ["base/src/lib.rs", "marshalable/src/lib.rs", "marshalable-derive/src/lib.rs", "base/src/constants.rs", "base/src/commands/capability.rs", "base/src/commands/pcr.rs", "base/src/commands/random.rs", "base/src/commands/startup.rs"]

p("C01", "Decoding any bytes as any TPM wire type is total",
  "Decoding an arbitrary byte string as any wire type of the library (TPM structures, unions, lists, sized buffers, commands, responses, headers, union bodies decoded with an explicit selector) never panics, never loops and returns either a value or an error. Whether it succeeds or fails, it only consumes bytes from the front of the input and never more than there are, and the value and the consumed length of a successful decode do not depend on what follows the consumed prefix. The byte cursor itself hands out exactly the requested next bytes, or nothing and stays where it was when fewer remain.",
  ["inputs"], "all byte strings (any length, any content, truncated, oversized counts, wrong selectors) times all wire types",
  "The tests decode a few dozen fixed, mostly well-formed buffers of about ten types.",
  BASE, [("UnmarshalBuf::get bounds every read", "marshalable/src/lib.rs"), ("derive: count check before the element loop", "marshalable-derive/src/lib.rs")],
  ["try_unmarshal / try_unmarshal_variant results and UnmarshalBuf::len"])

p("C02", "Encoding and decoding are lossless inverses",
  "For every wire type and every value of it, decoding the encoded bytes gives back a value that encodes to the same bytes (and equals the original wherever the original has no hidden unencoded contents), consuming exactly the bytes that were written. Conversely, whenever a byte string decodes successfully, encoding the result reproduces exactly the consumed bytes. The same holds for a union body encoded without its selector and decoded with the selector that the value reports.",
  ["inputs"], "all values of all wire types, and all byte strings that decode",
  "Round trips are tested for a handful of values; counts, selectors and sizes at the boundaries are not.",
  BASE, [("derived and hand-written codecs", "marshalable-derive/src/lib.rs, base/src/lib.rs")],
  ["try_marshal followed by try_unmarshal and vice versa"])

p("C03", "Encoding stays within the destination and fails cleanly",
  "Encoding any value into a destination of any length, including zero, succeeds exactly when the encoding fits, reports the number of bytes written, and never panics; when it does not fit it returns an error. The reported length and the written bytes are the same for every destination that is large enough, and bytes beyond the reported length (and, on failure, nothing outside the destination) are never changed. A value whose declared element count exceeds the capacity of its list is refused with an error.",
  ["inputs"], "all values times all destination lengths and prior destination contents",
  "The tests encode into buffers that are large enough, or one that is far too small.",
  BASE, [("length check before each copy", "marshalable/src/lib.rs"), ("derive: destination and count checks", "marshalable-derive/src/lib.rs")],
  ["try_marshal into every destination length, with canary bytes around it"])

p("C04", "The encoding is the TPM 2.0 wire format",
  "The bytes produced for any value, and the value obtained from any bytes, are those the TPM 2.0 Library Part 2 defines for the corresponding TPM structure: every integer big-endian and of its specified width, fields in specification order, list counts of 32 bits, sized buffers with a 16-bit size, selection bitmaps with an 8-bit size, unions selected by the specified algorithm, capability or structure tag. The selector of the attested, public and sensitive structures is placed where the specification puts it, ahead of the fields that precede the union body.",
  ["inputs"], "all values of all wire types, in both directions",
  "Tests mostly compare the code with itself (encode then decode), so a consistent change of order, width, byte order or selector goes unnoticed.",
  BASE, [("field order and types of the structures", "base/src/lib.rs"), ("selector values", "base/src/constants.rs"), ("hand-written codecs of TPMS_ATTEST, TPMT_PUBLIC, TPMT_SENSITIVE", "base/src/lib.rs")],
  ["encoded bytes against an independent reference encoder; decoded field values against the reference fields"])

p("C05", "Malformed input is rejected, with the right kind of error",
  "A byte string that ends before the structure is complete is always rejected with the end-of-buffer error; a list or bitmap count above the capacity of its type is rejected with the array-length error; a selector that the union does not define is rejected with the unknown-selector error; and a sized buffer larger than its type is rejected. Every byte string that is well formed for the type is accepted, up to and including the maximum counts and sizes. Converted to TPM response codes these errors are TPM_RC_MEMORY, TPM_RC_SIZE and TPM_RC_SELECTOR respectively.",
  ["inputs"], "all truncations, all over-limit counts and sizes, all undefined selectors, and all well-formed inputs, for all wire types",
  "Only a few types have one negative test each; boundary counts (exactly the capacity, one more) and most selectors are never tried.",
  BASE + ["marshalable/src/errors.rs"], [("count check against the array length", "marshalable-derive/src/lib.rs"), ("selector fallthrough", "marshalable-derive/src/lib.rs"), ("error conversion", "marshalable/src/errors.rs")],
  ["the error returned by try_unmarshal against a reference parser's verdict"])

p("C06", "Sized buffers and lists behave as bounded sequences",
  "A sized buffer built from bytes holds exactly those bytes and reports their number, up to its capacity, and refuses more; its empty default has length zero. A list built from elements or grown one element at a time holds exactly the added elements in order, reports their number, accepts elements up to its capacity, refuses the next one with TPM_RC_SIZE and is unchanged by a refused operation. After any sequence of such operations the contents that are read back, encoded, decoded or compared agree with that sequence.",
  ["histories", "inputs"], "all operation histories (construct, add, add past capacity, encode, decode, copy) on all sized-buffer and list types",
  "Tests build two or three containers with a few elements; capacity limits are tried on one type.",
  ["base/src/lib.rs", "marshalable-derive/src/lib.rs"], [("from_bytes/get_buffer", "marshalable-derive/src/lib.rs"), ("list constructors and add", "base/src/lib.rs")],
  ["results of the constructors, add, count, element accessors, AsRef and encoding, against a sequence model"])

p("C07", "Structured sized buffers carry exactly the encoded structure",
  "Wrapping any public area, creation data or sensitive-create structure in its sized buffer always succeeds and yields a buffer whose contents are exactly the structure's encoding; unwrapping it gives back an equal structure. Unwrapping a buffer whose contents are not a complete structure returns an error, without panicking and without reading stale bytes behind the buffer's size. The wrapper's own encoding is the 16-bit size followed by the structure's encoding.",
  ["inputs"], "all structures of the three wrapped types (every union arm, minimum to maximum sizes) and all buffer contents",
  "One or two fixed structures are wrapped in tests.",
  ["base/src/lib.rs", "marshalable-derive/src/lib.rs"], [("derived from_struct / to_struct", "marshalable-derive/src/lib.rs")],
  ["from_struct, to_struct, get_buffer, encodings"])

p("C08", "The client sends exactly the specified command bytes, once",
  "Running any command sends exactly one request to the connection: session tag matching whether sessions are used, total size equal to the bytes sent, the command's code, the handles, the authorization area with its size when sessions are used, and the parameters, each in specified encoding and order. If the command does not fit the client's 4096-byte command buffer the call returns an error and nothing is sent. An error of the connection is returned unchanged to the caller.",
  ["inputs", "fault_sequences"], "all commands, handle areas, parameters, zero to three sessions, sizes up to and beyond the buffer, and connection failures",
  "Tests check the command code of one tiny command; sizes, tags, handles and authorization areas on the wire are never looked at.",
  ["crates/tpm2-client/src/lib.rs", "base/src/commands/capability.rs", "base/src/commands/pcr.rs", "base/src/commands/random.rs", "base/src/commands/startup.rs"], [("run_command_with_handles", "crates/tpm2-client/src/lib.rs"), ("write_command_sessions", "crates/tpm2-client/src/lib.rs")],
  ["bytes passed to the recording connection; returned result"])

p("C09", "No response, however hostile, is misread by the client",
  "Whatever bytes the connection delivers, running a command neither panics nor hangs; it returns success only if the response has code zero, a size field equal to the number of bytes delivered, and handles, parameters and authorizations that decode to exactly the end, and then the returned handles and parameters are those in the response. A non-zero response code is returned as that error code; a size field beyond the client's buffer gives an out-of-memory error; truncated and over-long responses give errors. The result never depends on bytes that the connection did not deliver.",
  ["inputs", "fault_sequences"], "all response byte strings for all commands, sessions and delivered lengths",
  "Four hand-made responses are tried.",
  ["crates/tpm2-client/src/lib.rs"], [("read_response_header and size checks", "crates/tpm2-client/src/lib.rs"), ("trailing-bytes check", "crates/tpm2-client/src/lib.rs")],
  ["result of run_command* against a reference response parser"])

p("C10", "Sessions are sent and validated in order",
  "With zero to three sessions, the authorization area contains the sessions' authorizations in the order given, preceded by their total size, and is absent without sessions. Each session is shown the response authorization at its own position exactly once and in order, and the command succeeds only if every one of them accepts; the first rejection is returned as the error. A password session sends the password handle, an empty nonce and the password (at most the maximum authorization size), and accepts a response authorization exactly when it has an empty nonce, an empty hmac and only the continue-session attribute.",
  ["inputs", "histories"], "all numbers and orders of sessions, all authorizations, all response authorizations, all rejecting positions",
  "Only a single password session is tested, with one invalid response.",
  ["crates/tpm2-client/src/lib.rs", "crates/tpm2-client/src/sessions/password.rs", "crates/tpm2-client/src/sessions/authorization_area/mod.rs", "crates/tpm2-client/src/sessions/authorization_area/s1.rs", "crates/tpm2-client/src/sessions/authorization_area/s2.rs", "crates/tpm2-client/src/sessions/authorization_area/s3.rs", "crates/tpm2-client/src/sessions/nosession.rs"], [("write_command_sessions / read_response_sessions", "crates/tpm2-client/src/lib.rs"), ("PasswordSession", "crates/tpm2-client/src/sessions/password.rs"), ("tuple authorization areas", "crates/tpm2-client/src/sessions/authorization_area")],
  ["authorization bytes sent, sequence of validation calls seen by recording sessions, result"])

p("C11", "TCP transactions stay in step with the simulator",
  "Each command sent over a TCP connection appears on the simulator's TPM port as one send-command frame with the current locality, the command's length and its bytes, and nothing else; the caller receives exactly the response bytes of that frame, however the stream is fragmented or delayed. A response larger than the caller's buffer, a connection that ends early and a non-zero terminator are reported as errors without panicking, and bytes of the caller's buffer beyond the response are not touched. After a response that was too large for the caller's buffer the next transactions on the connection again get their own responses.",
  ["schedules", "histories", "fault_sequences", "inputs"], "all sequences of transactions, fragmentations and timings of the stream, response lengths, early closes at every byte, bad terminators",
  "The simulator test is disabled (it needs an external simulator), so this code runs in no test.",
  ["crates/tpm2-client/src/connection/tcp.rs"], [("TcpConnection transact", "crates/tpm2-client/src/connection/tcp.rs"), ("terminator check", "crates/tpm2-client/src/connection/tcp.rs")],
  ["bytes received by a scripted peer on both ports; result, buffer and later transactions of the caller"])

p("C12", "Simulator control operations follow its TCP protocol",
  "Every platform signal, the reinitialization sequence, the hash (H-CRTM) sequence, the remote handshake, alternative results, command/response size queries, ACT queries, firmware hash and SVN, failure mode, session end and stop send exactly the specified command codes and payloads, in order, to the right one of the two ports, wait for the acknowledgement where the protocol has one, and return the values the simulator sent. A multi-step operation stops at the first step that is not acknowledged and reports an error; a bad acknowledgement, an unexpected size or an early end of the stream is an error, never a panic.",
  ["histories", "fault_sequences", "inputs", "schedules"], "all sequences of control operations mixed with transactions, all parameters and replies, faults at every step",
  "No test exercises the control operations.",
  ["crates/tpm2-client/src/connection/tcp.rs"], [("TcpConnection control methods", "crates/tpm2-client/src/connection/tcp.rs")],
  ["bytes received by scripted peers on the TPM and platform ports, with their order; returned values"])

p("C13", "A started simulator is connected to or cleaned up",
  "Starting a simulator runs the given program with the given arguments in the given directory, waits for its port files even if they appear late or are still empty, and connects to the ports they name. If the start fails at any step an error is returned and no process started by the call keeps running. Dropping the handle asks the simulator to stop on both ports, and a simulator that can no longer be asked is killed.",
  ["schedules", "fault_sequences", "crash_points"], "all timings of the port files and listeners, and failures at each step of the start",
  "No test starts a simulator process.",
  ["crates/tpm2-client/src/connection/tcp.rs"], [("TcpSimulator::new, Drop", "crates/tpm2-client/src/connection/tcp.rs")],
  ["arguments, directory, lifetime and received bytes of a stand-in simulator process"])

p("C14", "The server answers every request with a well-formed response",
  "For every request byte string and every response buffer, executing a command neither panics nor hangs and returns a length within the buffer; unless the buffer is too small for any response (then the length is zero), those bytes are a complete TPM response: tag 0x8001, size equal to the returned length, and a response code. A request whose size field differs from its length or that is shorter than its header or parameters gets TPM_RC_COMMAND_SIZE, an unimplemented command gets TPM_RC_COMMAND_CODE, a response that does not fit gets TPM_RC_MEMORY, and a random-number request that fits succeeds with exactly the requested number of bytes.",
  ["inputs", "histories"], "all requests, request lengths, response buffer lengths and prior contents, and sequences of requests on one context",
  "Two tests send the same single well-formed request.",
  ["crates/tpm2-impl/src/tpmctx.rs", "crates/tpm2-impl/src/req_resp.rs", "crates/tpm2-impl/src/handler/random.rs", "crates/tpm2-impl/src/platform/buffer.rs"], [("execute_command, fill_error", "crates/tpm2-impl/src/tpmctx.rs"), ("cursor over request and response", "crates/tpm2-impl/src/req_resp.rs")],
  ["returned length and response buffer, against a reference server"])

p("C15", "In-place and separate execution agree and stay in bounds",
  "Executing a request in place in one buffer gives the same response as executing it with separate buffers and an equally long response buffer, for every request and request length (a claimed length beyond the buffer is treated as the buffer's length). The request buffer is never written in separate mode, bytes of an in-place buffer beyond the request never influence the response, and bytes of the response buffer beyond the returned length keep their contents. Platform-provided buffers are only accessed within their length.",
  ["inputs", "histories", "configurations"], "all requests and buffer lengths in both modes, with slices and with custom platform buffers",
  "Both modes are tested with one identical request and a large buffer.",
  ["crates/tpm2-impl/src/buffers/inout.rs", "crates/tpm2-impl/src/buffers/separate.rs", "crates/tpm2-impl/src/tpmctx.rs", "crates/tpm2-impl/src/platform/buffer.rs", "crates/tpm2-impl/src/req_resp.rs"], [("InOutBuffer, SeparateBuffers", "crates/tpm2-impl/src/buffers"), ("slice buffers", "crates/tpm2-impl/src/platform/buffer.rs")],
  ["responses of both modes; accesses recorded by monitoring buffers"])

p("C16", "The server's randomness comes only from a correctly seeded DRBG",
  "Creating a TPM context draws the entropy input and then the nonce from the entropy source, in full, and instantiates the DRBG exactly once with them; a failure is returned as an error. Each random-number request asks whether reseeding is required, and if so reseeds with fresh full entropy before generating; the response contains exactly the bytes of one generate call, and requests that fail before producing output consume none. A failing reseed or generate call yields an error response carrying no success code, never a panic, and later requests are served again when the DRBG recovers.",
  ["histories", "fault_sequences"], "all sequences of requests, reseed-required patterns and DRBG failures at every call",
  "The fake DRBG of the tests never requires reseeding and never fails.",
  ["crates/tpm2-impl/src/crypto.rs", "crates/tpm2-impl/src/handler/random.rs", "crates/tpm2-impl/src/handler/mod.rs"], [("Crypto::new", "crates/tpm2-impl/src/crypto.rs"), ("try_get_random", "crates/tpm2-impl/src/handler/random.rs")],
  ["event log of a scripted DRBG and entropy source, checked against a protocol automaton; responses"])

p("C17", "DRBG helper functions preserve bytes, order and additional input",
  "The integer and fill helpers for DRBG implementations return the integers made of the generator's output bytes in little-endian order, and fill buffers of any length with the generator's successive output blocks, the last one truncated. Additional input is passed to the generator's first call only, and later calls get none. An error of the generator is returned to the caller at once and no further output is requested.",
  ["inputs", "fault_sequences"], "all generators, buffer lengths, additional inputs and failing positions",
  "The helpers are used by the test DRBG only for one length.",
  ["crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs", "crates/tpm2-impl/src/platform/crypto/drbg/mod.rs", "crates/tpm2-impl/src/platform/crypto/drbg/error.rs"], [("drbg_helpers", "crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs")],
  ["calls seen by a recording generator; results"])

p("C18", "Response codes are built and taken apart as the specification says",
  "A format-one response code built for a handle, parameter or session error at any representable position has the numeric value the specification assigns and decodes to the same kind and position, and no other code is reported as carrying a kind and position. A code is classified as a warning exactly if it is a version-one code with the warning bit. Every error keeps its numeric value through all conversions between the layers, errors of different layers never collide, and zero is never an error.",
  ["inputs"], "all error kinds and positions, all 32-bit codes that can be produced, all layer errors",
  "One code is built and decoded, one is classified.",
  ["crates/tpm2/src/errors/tpm_rc/mod.rs", "crates/tpm2/src/errors/tss_rc.rs", "crates/tpm2/src/errors/mod.rs", "crates/tpm2/src/errors/std.rs", "marshalable/src/errors.rs"], [("ErrorType/ErrorPosition masks", "crates/tpm2/src/errors/tpm_rc/mod.rs"), ("layer errors", "crates/tpm2/src/errors/tss_rc.rs")],
  ["numeric values and decoded parts of all constructible codes"])

p("C19", "Handle ranges and NV attribute fields follow the specification",
  "A 32-bit value is accepted as an NV index exactly if it is in 0x01000000-0x01FFFFFF, and as an authorization session exactly if it is an HMAC session (0x02000000-0x0200003F), a policy session (0x03000000-0x0300003F) or the password handle 0x40000009; anything else is refused with TPM_RC_VALUE, and an accepted value encodes to itself. Setting the NV index type changes only the type field, and reading it gives back the type that was set; all attribute bits have their specified positions and survive encoding.",
  ["inputs"], "all 32-bit handle values and all attribute words and index types",
  "A few handles and one attribute word are tested.",
  ["base/src/lib.rs", "base/src/constants.rs"], [("handle range predicates", "base/src/constants.rs"), ("attribute field helpers", "base/src/lib.rs")],
  ["results of the conversions and predicates over all range boundaries and sampled values"])

p("C20", "The core crate's codecs respect their limits and round-trip",
  "In the core crate, encoding a value reports exactly its encoded size, which never exceeds the maximum size its type declares, and decoding the encoding gives back the same value and the unread rest of the input; truncated input is an error, never a panic. A hash algorithm identifier is decoded exactly if it is one the specification defines. A tagged digest of the SHA-1 or SHA-2 family is decoded and encoded exactly if the configured limits support its algorithm, with the digest length that algorithm defines.",
  ["inputs", "configurations"], "all values and byte strings of the core types under all limit configurations",
  "The core crate has two tests, both about response codes.",
  ["crates/tpm2/src/marshal.rs", "crates/tpm2/src/tpmi.rs", "crates/tpm2/src/tpmt.rs", "crates/tpm2/src/constants.rs", "crates/tpm2/src/lib.rs"], [("Marshal/Unmarshal implementations", "crates/tpm2/src/marshal.rs"), ("hash algorithm filter", "crates/tpm2/src/tpmi.rs")],
  ["results of marshal, marshaled_size, unmarshal"])

p("C21", "TPM constants have their specified values in every crate",
  "Every published constant (algorithm ids, curves, command codes, response codes, structure tags, startup, session and capability types, properties, handle types and handles, NV types, comparison operators, attribute bits, implementation limits) has the numeric value the TPM 2.0 Library assigns, and constants that two crates publish agree. Distinct names have distinct values except where the specification defines aliases, and each constant encodes with its specified width. Commands carry the command code of the command they are named after.",
  ["configurations", "inputs"], "all published constants and commands",
  "Tests reference constants by name on both sides of a comparison, so a wrong value cancels out.",
  ["base/src/constants.rs", "base/src/lib.rs", "crates/tpm2/src/constants.rs", "crates/tpm2/src/errors/tpm_rc/mod.rs", "base/src/commands/capability.rs", "base/src/commands/pcr.rs", "base/src/commands/random.rs", "base/src/commands/startup.rs"], [("constant definitions", "base/src/constants.rs")],
  ["value and encoding of each constant against a table taken from the specification"])

p("C22", "No execution has undefined behaviour or touches foreign memory",
  "No sequence of calls to the public interfaces of the crates, on any input, performs an out-of-bounds or uninitialised memory access, any other undefined behaviour, a data race, an arithmetic overflow, or leaks memory per operation. This includes values with niche or C representations, which always hold valid discriminants.",
  ["inputs", "histories", "schedules"], "all call histories and inputs of the public interfaces",
  "Tests run without sanitizers.",
  ["marshalable/src/lib.rs", "marshalable-derive/src/lib.rs", "base/src/lib.rs", "crates/tpm2/src/marshal.rs", "crates/tpm2-client/src/lib.rs", "crates/tpm2-client/src/connection/tcp.rs", "crates/tpm2-impl/src/tpmctx.rs", "crates/tpm2-impl/src/platform/buffer.rs"], [("forbid(unsafe_code)", "every crate root"), ("safe_discriminant, zerocopy", "dependencies")],
  ["Miri and AddressSanitizer reports over the workloads of the other properties"])

p("C23", "Derived codecs are correct for user-defined types",
  "For any user type the derive macros accept (structs with named, positional or no fields, fixed arrays, arrays with a count field of 8, 16 or 32 bits, enums with 8-, 16- or 32-bit selectors and any number of payload fields, nested types, sized buffers and structured sized buffers), the generated codec encodes the fields in declaration order, arrays element by element up to the count, enums as selector then payload, and decodes the same. The generated code refuses short destinations, truncated inputs, excessive counts and unknown selectors with the matching error, and never panics.",
  ["programs", "inputs"], "all type definitions accepted by the derive macros and all values and byte strings of them",
  "Tests derive the codec for about ten types and try one or two values of each.",
  ["marshalable-derive/src/lib.rs", "marshalable/src/lib.rs"], [("Marshalable derive", "marshalable-derive/src/lib.rs"), ("Tpm2bStruct derive", "marshalable-derive/src/lib.rs")],
  ["codecs derived for a family of monitor-defined types against a reference codec"])

p("C24", "Client, transport and server agree on every exchange",
  "When the client talks to the server, directly or over the TCP transport, every request the client builds is understood by the server, and every response of the server is understood by the client: implemented commands succeed with the server's data, unimplemented ones give the caller TPM_RC_COMMAND_CODE, and a request that cannot be satisfied gives the caller the server's error code. Long sequences of mixed exchanges, with errors in between, keep this correspondence.",
  ["histories", "inputs"], "all sequences of commands run by the client against the server, in process and over TCP",
  "Client and server are only tested against hand-made counterparts.",
  ["crates/tpm2-client/src/lib.rs", "crates/tpm2-client/src/connection/tcp.rs", "crates/tpm2-impl/src/tpmctx.rs", "crates/tpm2-impl/src/handler/random.rs"], [("run_command", "crates/tpm2-client/src/lib.rs"), ("execute_command", "crates/tpm2-impl/src/tpmctx.rs")],
  ["results at the client, requests and responses on the wire, DRBG bytes"])

p("C25", "Independent contexts and connections do not influence each other",
  "Server contexts, client calls and TCP connections used concurrently from different threads, or interleaved on one thread, behave exactly as each would alone: every response is determined by the history of its own context, and every caller gets the response of its own connection. Moving a context or connection between threads between calls does not change this.",
  ["schedules", "histories"], "all interleavings of operations on independent contexts and connections over any number of threads",
  "Tests use one context and no threads.",
  ["crates/tpm2-impl/src/tpmctx.rs", "crates/tpm2-impl/src/handler/mod.rs", "crates/tpm2-client/src/lib.rs", "crates/tpm2-client/src/connection/tcp.rs"], [("no shared mutable state", "all crates")],
  ["per-context histories recorded at the call boundary, each checked against its own sequential reference"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
