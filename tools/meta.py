#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
C = {}      # id -> (technique, level, note)

def prop(id, title, statement, over, text, why, files, mechanism, observe,
        state=(), check=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over.split(), text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files.split(),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))
    if check:
        C[id] = check

EXP = "exploration"
MC = "model_checking"
SCHED = ("stateless exhaustive exploration of the real code under a controlled"
    " scheduler, virtual clock and network")
ENUM = "bounded exhaustive enumeration of the real code against an independent reference model"
BFS = "exhaustive enumeration of operation histories of the real code against an executable reference model"

# ------------------------------------------------------------------ B: codecs
prop("B01", "Every SMI value has one canonical BER encoding and reads back",
    """For every SMI value (integers, counters, gauges, time ticks, octet
    strings, opaque, IP addresses, object identifiers, null and the exception
    values) the encoding is the canonical definite-length BER encoding
    prescribed by the standard, with the right tag and the fewest octets.
    Decoding that encoding yields an equal value of the same type, and a value
    outside its type's range can neither be constructed nor decoded.""",
    "inputs", """all values of each type inside the stated bounds: every
    integer near every power of two and all 16-bit ones, every length boundary,
    every object identifier over a boundary alphabet up to the stated length,
    every tag and length form""",
    """The tests check a handful of encodings per type; sign-bit, octet-count
    and base-128 boundaries need every boundary value.""",
    "snmp/ber.py snmp/asn1.py snmp/smi.py snmp/pdu.py",
    [("integer, octet string and OID (de)serialisers", "snmp/asn1.py"),
     ("bounded types", "snmp/smi.py"), ("tag and length codec", "snmp/ber.py")],
    ["encode() and decode() of every value class"],
    check=(ENUM, EXP, """Exhaustive within the stated value bounds; the oracle
    is an independent BER codec (mc/refber.py)."""))

prop("B02", "Malformed messages are only ever rejected as bad messages",
    """Decoding any byte string as an SNMP message (any version, including its
    security parameters and PDU) either yields a message or raises the
    library's incoming-message error; no other exception escapes and decoding
    always terminates. A byte string that the encoding rules do not allow --
    truncated, with a wrong tag, an overrunning or trailing length, an
    unfinished sub-identifier, or an out-of-range field -- is never accepted,
    and every valid message is.""",
    "inputs", """every truncation, every single-octet change of value, every
    insertion and deletion and every field replacement from a boundary set, in
    a corpus of valid messages of each version and PDU type, and every short
    byte string""",
    """The tests contain a few malformed inputs per class; the hostile input
    space is every byte string.""",
    "snmp/ber.py snmp/asn1.py snmp/smi.py snmp/pdu.py snmp/message/core.py snmp/message/v3.py snmp/message/version.py snmp/security/usm/parameters.py",
    [("length and tag checks", "snmp/ber.py decode"),
     ("field validation", "snmp/message/v3.py, snmp/pdu.py, snmp/security/usm/parameters.py")],
    ["Message.decode, SNMPv3Message.decode, UsmSecurityParameters.decode, VersionOnlyMessage.decode"],
    check=(ENUM, EXP, """Exhaustive over the mutation operators and the corpus;
    the acceptance oracle is a separate lenient-BER recogniser (mc/lenient.py)."""))

prop("B03", "PDUs and messages encode to what the standards prescribe and back",
    """Every PDU type and every v1, v2c and v3 message (including scoped PDU,
    header and security parameters) encodes to exactly the octets that the SNMP
    standards prescribe for its fields, and decoding those octets restores
    every field. Error responses expose the status and the variable binding
    that the error index designates.""",
    "inputs", """every combination of a boundary value for each field of each
    PDU and message type, every value type in a variable binding, every list
    length up to the bound, every error status with every index""",
    """The tests encode one example of each type with small fields.""",
    "snmp/pdu.py snmp/message/core.py snmp/message/v3.py snmp/security/usm/parameters.py",
    [("PDU (de)serialisers", "snmp/pdu.py"), ("message (de)serialisers", "snmp/message")],
    ["encode()/decode() of every PDU and message class, ErrorResponse"],
    check=(ENUM, EXP, """Exhaustive over products of boundary field values;
    the oracle is an independent encoder and decoder (mc/refber.py)."""))

prop("B04", "Object identifiers: text, order, prefix and limits agree",
    """An object identifier is the sequence of its sub-identifiers: parsing its
    text (with or without a leading dot) gives it back, equality, hashing,
    ordering, length, slicing and iteration are those of the sequence, and
    prefix tests and extension are prefix tests and concatenation. Identifiers
    beyond the documented limits (128 sub-identifiers, each within 0..2^32-1,
    the first at most 2 and the second at most 39) are always rejected with
    ValueError, and so is text with a part that is not a number.""",
    "inputs", """all identifiers over a boundary alphabet up to the stated
    length, all pairs of them, every sub-identifier position and limit, and all
    short texts over an alphabet of digits, dots, signs and spaces""",
    """The tests compare a few identifiers; order and prefix relations are over
    all pairs.""",
    "snmp/asn1.py snmp/smi.py",
    [("OBJECT_IDENTIFIER", "snmp/asn1.py"), ("limits", "snmp/smi.py OID")],
    ["OID(...), OID.parse, str, ==, <, hash, startswith, extend, slicing"],
    check=(ENUM, EXP, """Exhaustive over the stated identifiers, pairs and
    texts; the oracle is Python tuples."""))

prop("B05", "A table index decodes to exactly the values it was made from",
    """Appending index values to an object identifier follows the SMIv2 index
    encoding (length prefixes except for fixed-size and implied fields), and
    decoding the result with the same prefix and types returns equal values.
    Decoding an identifier that does not start with the prefix raises the
    prefix error, and one whose remainder is not exactly an encoding of the
    given types raises the index-decoding error; nothing else is raised.""",
    "inputs", """all tuples of up to three index fields over every usable type
    and boundary values, implied or not, and for decoding every sequence of
    sub-identifiers over a boundary alphabet up to the stated length against
    every type list""",
    """The tests decode a few hand-written indices; overlaps between adjacent
    variable-length fields need the full product.""",
    "snmp/asn1.py snmp/smi.py",
    [("asOID/fromOID", "snmp/asn1.py"), ("withIndex/decodeIndex/getIndex", "snmp/asn1.py, snmp/smi.py")],
    ["OID.withIndex, OID.decodeIndex, OID.getIndex"],
    check=(ENUM, EXP, """Exhaustive within the stated bounds; the oracle is an
    index codec written from RFC 2578 section 7.7."""))

prop("B06", "A byte view behaves exactly like the slice it stands for",
    """A view of a byte string, however it was derived (from bytes or from
    another view, with any positive, negative, missing or out-of-range bounds,
    by splitting or advancing) has the same length, truth value, items, slices,
    iteration and equality as the slice it denotes, and indexing outside it
    raises IndexError. Replacing a view substitutes exactly its octets in the
    underlying string and never changes the original.""",
    "inputs", """every chain of two view operations with every combination of
    bounds from -(n+1) to n+1 or missing over byte strings up to the stated
    length, and every index and slice of the result""",
    """The tests try selected bounds on one level of view.""",
    "snmp/utils.py",
    [("subbytes", "snmp/utils.py")], ["subbytes operations"],
    check=(ENUM, EXP, "Exhaustive within the bounds; the oracle is Python bytes slicing."))

# --------------------------------------------------------------- R: identifiers
prop("B07", "Printed forms evaluate to equal objects; equality means equal contents",
    """For every value, object identifier, variable binding, binding list, PDU
    of any kind, header, scoped PDU, security parameters, message of any
    version, tag, security level and byte view, evaluating repr(x) with the
    library's names in scope yields an object of the same class that is equal
    to x and encodes to the same octets. Printing any such object, including
    decoded ones and copies made from their repr, never fails, shows the
    contents of every field in order (names as dotted numbers, error statuses
    by name), and a nested object is printed as its own text indented. Two
    objects are equal exactly when they are of the same type (or tag) and have
    the same contents; comparing an object with something of another kind is
    False, never an error; equal objects have equal hashes; and the security
    levels are ordered noAuthNoPriv, authNoPriv, authPriv.""",
    "inputs", """every combination of boundary values of the fields of each
    class, octet strings with every special character, every error status and
    index, every indentation depth and tab up to the bound, and all ordered
    pairs of a population of objects of every class""",
    """The tests evaluate one repr and compare one pair per class; special
    characters, empty views, decoded objects, nested texts and pairs across
    classes are each a product of choices.""",
    "snmp/asn1.py snmp/smi.py snmp/pdu.py snmp/ber.py snmp/utils.py snmp/message/core.py snmp/message/v3.py snmp/message/version.py snmp/security/levels.py snmp/security/usm/parameters.py",
    [("__repr__, __str__ and toString of every class", "snmp/smi.py, snmp/pdu.py, snmp/message, snmp/security"),
     ("__eq__, __hash__ and order", "snmp/asn1.py, snmp/ber.py, snmp/security/levels.py")],
    ["repr, eval, str, toString, ==, !=, hash, <, >, >= of every class"],
    check=(ENUM, EXP, """Exhaustive over the stated products and pairs; the
    oracles are the original object, its encoding, the reference fields and the
    textual indentation of the object's own text."""))

prop("R01", "Request and message IDs are valid, fresh and never collide",
    """Every message ID, and the request ID of every request that asks for
    data, is a non-zero number in the range the protocol allows, each generator run
    produces every value of its range exactly once before it repeats, and two
    requests outstanding at the same time never share the ID by which responses
    are matched (the request ID of v1 and v2c, the message ID of SNMPv3), under
    every interleaving of concurrent callers. When no free ID can be found the caller
    gets an error rather than a duplicate, and an ID becomes available again
    once its request is closed or its handle is gone.""",
    "inputs histories schedules", """every step of every generator of a small
    width, the boundary steps of the real widths, every history of issue,
    answer and close up to the stated depth with a generator narrowed to a few
    values, and every interleaving of two concurrent callers with one
    preemption at any source line""",
    """The tests draw a few numbers; collisions need a wrapped generator or two
    threads at a particular point.""",
    "snmp/utils.py snmp/message/v1.py snmp/message/v2c.py snmp/message/v3.py snmp/manager/v3.py",
    [("NumberGenerator", "snmp/utils.py"), ("cache/uncache under a lock", "snmp/message/v1.py, v2c.py, v3.py"),
     ("generateRequestID", "snmp/manager/v3.py")],
    ["IDs in the datagrams sent; prepareOutgoingMessage"],
    check=(BFS + "; " + SCHED, MC, """All generators up to 12 bits completely,
    the real widths at their ends; histories to the stated depth; line-level
    interleavings with one preemption."""))

# ------------------------------------------------------------------ U: security
prop("U01", "Keys, localised keys and digests are those of RFC 3414/7860",
    """For every password, engine ID and authentication protocol (MD5, SHA-1,
    SHA-224, SHA-256, SHA-384, SHA-512) the derived key is the hash of the
    password repeated to exactly one mebibyte, the localised key hashes key,
    engine ID and key, and a message's digest is the HMAC under that key
    truncated to the protocol's length. Authentication and privacy keys come
    from their own passwords, or from the common one when it is the only one
    given, and the privacy key is localised with the authentication protocol.""",
    "inputs configurations", """every protocol, with every password length up
    to the stated bound and lengths around divisors of 2^20, every engine ID
    length 5..32, message lengths around the hash block sizes, and every
    combination of the password arguments""",
    """The tests use the RFC's sample vectors for some protocols; password
    lengths that do not divide 2^20, key truncation and the password arguments
    vary independently.""",
    "snmp/security/usm/auth.py snmp/security/usm/credentials.py",
    [("computeKey, localizeKey, sign", "snmp/security/usm/auth.py"),
     ("Credentials", "snmp/security/usm/credentials.py")],
    ["AuthProtocol methods; signed messages of configured users"],
    check=(ENUM, EXP, """Exhaustive over the stated lengths and combinations;
    the oracle is an independent implementation of the RFCs (mc/refusm.py)."""))

prop("U02", "No message that fails authentication is ever accepted",
    """A message that claims authentication is accepted only if its digest is
    the correct one for exactly those octets under the key of the named user at
    the named engine: any change to a digest, a length, an ID, an engine, a
    user, the time or the content of a signed message leads to its rejection.
    Messages for unknown users or engines, for users without the claimed
    security, or with privacy but no authentication are rejected too, and a
    rejected message changes nothing that later messages or requests depend
    on.""",
    "inputs histories", """every single-bit change of signed (and encrypted)
    messages of every protocol, every truncated or extended digest, every
    re-encoding of a field from a boundary set with and without re-signing by a
    wrong key, and every such message placed before, between and after genuine
    ones""",
    """The tests reject one wrong digest; the guarantee is over every possible
    modification.""",
    "snmp/security/usm/implementation.py snmp/security/usm/parameters.py snmp/message/v3.py",
    [("processIncoming", "snmp/security/usm/implementation.py"),
     ("signature location", "snmp/security/usm/parameters.py")],
    ["SNMPv3MessageProcessor.prepareDataElements"],
    check=(ENUM, EXP, """Exhaustive over single-bit changes and the stated
    structured forgeries; HMAC itself is assumed sound, the genuine messages
    come from the reference implementation."""))

prop("U03", "The 150-second window, reboots and replays follow RFC 3414",
    """An authenticated message is accepted only if it is timely by RFC 3414:
    its boot counter equals the newest authenticated one and its time is at
    most 150 seconds behind the newest authenticated estimate of the engine's
    clock (in whole seconds, rounded down); older boots and a saturated boot counter are refused. The estimate
    advances with local time, jumps forward to newer authenticated values,
    never moves back within a boot cycle, and is what outgoing authenticated
    requests carry, always within the legal range.""",
    "histories inputs", """every sequence up to the stated length of
    authenticated messages with boundary boots and times and of local clock
    advances (fractional ones included), on several engines""",
    """The tests check individual comparisons; the clock estimate depends on
    the whole history.""",
    "snmp/security/usm/timekeeper.py snmp/security/usm/implementation.py",
    [("TimeKeeper", "snmp/security/usm/timekeeper.py")],
    ["processIncoming and prepareOutgoing with a controlled clock"],
    [("table", "boots and boot instant per engine", "snmp/security/usm/timekeeper.py")],
    check=(BFS, MC, """All histories of the stated alphabet and depth, each
    replayed on the real security module with signed messages; the model is
    the RFC's rules on integers and binary fractions."""))

prop("U04", "Unauthenticated input cannot disturb an authenticated clock",
    """Unauthenticated messages may only supply a provisional clock estimate
    for an engine from which nothing authentic was received yet: once an
    authenticated message of an engine was accepted, no unauthenticated or
    rejected message changes which messages are timely or what outgoing
    requests carry. A provisional estimate never makes the library refuse the
    first authentic message of an engine, and estimates of different engines
    never influence each other.""",
    "histories inputs", """every sequence up to the stated length that mixes
    unauthenticated, wrongly signed, replayed and genuine messages of two
    engines with boundary boots and times and clock advances""",
    """The tests check single calls; the property compares whole histories with
    and without the attacker's messages.""",
    "snmp/security/usm/timekeeper.py snmp/security/usm/implementation.py",
    [("hint versus update", "snmp/security/usm/timekeeper.py"),
     ("processIncoming", "snmp/security/usm/implementation.py")],
    ["processIncoming and prepareOutgoing with a controlled clock"],
    check=(BFS, MC, """All histories of the stated alphabet and depth on the
    real security module."""))

prop("U05", "Encryption interoperates and privacy parameters are checked",
    """What the library encrypts with AES-128 or DES, any conforming engine
    decrypts to the same scoped PDU (only DES padding may follow it), and what
    a conforming engine encrypts the library decrypts to exactly the sent
    octets, with either cryptographic backend, for every payload length, boot
    counter and time. Privacy parameters of a wrong length and ciphertexts of
    an impossible length are rejected as decryption errors, never by another
    exception.""",
    "inputs configurations", """every payload length up to the stated bound,
    boundary boots, times and salts, every key length, every salt length and
    ciphertext length, for both protocols in both backends and for whole
    messages""",
    """The tests decrypt one sample each and cannot compare the backends.""",
    "snmp/security/usm/priv/pycryptodome/aes.py snmp/security/usm/priv/pycryptodome/des.py snmp/security/usm/priv/openssl/aes.py snmp/security/usm/priv/openssl/des.py snmp/security/usm/priv/openssl/__init__.py snmp/security/usm/implementation.py",
    [("AesCfb128, DesCbc", "snmp/security/usm/priv/*"), ("OpenSSL envelope", "snmp/security/usm/priv/openssl/__init__.py")],
    ["PrivProtocol.encrypt/decrypt; encrypted messages"],
    check=(ENUM, EXP, """Exhaustive over lengths and boundary parameters; the
    oracle builds CFB128 and CBC from single-block AES and DES
    (mc/refusm.py), whose block functions are trusted."""))

prop("U06", "Encryption never uses the same salt twice",
    """While a user stays registered at an engine, every encryption for it uses a
    salt that no earlier one used (until the counter has gone through its whole
    range), starting from an unpredictable value and also when it wraps around,
    and the transmitted privacy parameter is the salt that was used. This holds for
    every interleaving of threads that encrypt with the same user at the same
    time, also while users are being added or engines discovered.""",
    "histories schedules", """every starting value near the wrap-around, every
    history of encryptions up to the stated depth, and every interleaving of
    two or three encrypting threads with preemptions at any bytecode""",
    """A repeated salt needs two threads inside the same few instructions, or
    2^32 encryptions.""",
    "snmp/security/usm/priv/pycryptodome/aes.py snmp/security/usm/priv/pycryptodome/des.py snmp/security/usm/priv/openssl/aes.py snmp/security/usm/priv/openssl/des.py",
    [("nextSalt", "snmp/security/usm/priv/*")], ["privacy parameters of encrypted messages"],
    check=(SCHED, MC, """All interleavings of two and three threads with
    one preemption at any bytecode (two for one backend, and for all in the
    thorough tier) or two at any source line, and all wrap-around histories in
    the stated neighbourhood."""))

prop("U07", "User tables: namespaces, defaults and collisions are respected",
    """A user's credentials are found under the namespace it was added to, at
    every engine of that namespace whether that engine was met before or after,
    and never under another namespace. The default user of a namespace is the
    one last marked as default, else the first added, and its default security level
    is the configured one, else the highest its credentials support; a
    conflicting redefinition or an unsupported level is refused and changes
    nothing.""",
    "histories configurations", """every sequence up to the stated depth of
    adding users (all credential kinds, two namespaces, default flags, levels)
    and registering and releasing engines, and after each every query""",
    """The tests add one or two users in a fixed order.""",
    "snmp/security/usm/users.py snmp/security/usm/credentials.py snmp/security/usm/implementation.py",
    [("UserRegistry, NamespaceConfig", "snmp/security/usm/users.py")],
    ["addUser, getDefaultUser, getDefaultSecurityLevel, messages built for each user"],
    check=(BFS, MC, """All histories of the stated alphabet and depth on the
    real security module, compared with a reference table after every
    operation."""))

prop("U08", "An engine belongs to one namespace until its last user lets go",
    """An engine ID can be registered any number of times within one namespace,
    and in another namespace only after every one of those registrations was
    released: an attempt to do so earlier fails and changes nothing. While
    registered, its messages are authenticated with that namespace's users
    only; once fully released it is unknown, and its authenticated messages are
    refused.""",
    "histories", """every sequence up to the stated depth of register and
    release over two engine IDs and two namespaces, with the users of both, and
    after each the acceptance of a message signed by each user""",
    """The tests walk a few fixed sequences; reference counts go wrong only in
    longer ones.""",
    "snmp/security/usm/users.py snmp/security/usm/implementation.py",
    [("RemoteEngine.assign/release", "snmp/security/usm/users.py")],
    ["registerRemoteEngine, unregisterRemoteEngine, processIncoming"],
    [("engines", "namespace and reference count per engine ID", "snmp/security/usm/users.py")],
    check=(BFS, MC, """All histories of the stated depth on the real security
    module, compared with a reference count model."""))

prop("U09", "A request leaves with the security asked for, or not at all",
    """A request for a user carries exactly the requested security level: at
    authNoPriv a digest valid for the whole message, at authPriv in addition a
    payload encrypted under the user's privacy key with nothing of the request
    in clear, and in every case the requested user, engine, context and PDU
    unchanged. If the requested level needs credentials that the user lacks, or
    is authenticated and the user or engine is unknown, nothing is sent and the
    caller gets an error; the level is never lowered.""",
    "inputs configurations", """every kind of user against every security
    level, engine ID length, PDU type and size around the length-encoding
    boundaries, before and after time synchronisation, through the message
    processor and through a manager""",
    """The tests build one message per level.""",
    "snmp/security/usm/implementation.py snmp/message/v3.py snmp/manager/v3.py",
    [("prepareOutgoing", "snmp/security/usm/implementation.py"),
     ("prepareOutgoingMessage", "snmp/message/v3.py"), ("Request.reallySend", "snmp/manager/v3.py")],
    ["datagrams sent"],
    check=(ENUM, EXP, """Exhaustive over the stated product; every datagram is
    verified and decrypted by the reference implementation."""))

# ------------------------------------------------------------------ D: dispatch
prop("D01", "A v1/v2c response reaches only the request it answers",
    """A v1 or v2c request accepts a message only if it is a response of the
    same protocol version with the request's ID and community, and then
    delivers exactly that message's outcome; whichever other responses,
    requests, duplicates or answers to other requests arrive, in any order,
    leave it waiting. Responses to several outstanding requests, in any order
    and with any losses, each end their own request only, and a response whose
    request is closed or abandoned is discarded.""",
    "inputs histories", """every single-field deviation of a response (version,
    community, ID, PDU type) against every outstanding request, and every order
    of delivery of the answers, duplicates and deviations of up to three
    outstanding requests""",
    """The tests deliver one mismatch at a time to the message processor alone.""",
    "snmp/message/v1.py snmp/message/v2c.py snmp/dispatcher.py snmp/manager/v1.py snmp/manager/v2c.py",
    [("prepareDataElements", "snmp/message/v1.py, snmp/message/v2c.py")],
    ["outcome of wait()"],
    [("outstanding", "request ID to handle and community", "snmp/message/v1.py, v2c.py")],
    check=(SCHED, MC, """All single deviations and all delivery orders of the
    stated sets, end to end through sockets, dispatcher and manager."""))

prop("D02", "A v3 response reaches only the request it answers",
    """An SNMPv3 request accepts a response only if its message ID belongs to a
    transmission of that request and its user, authoritative engine, context
    engine and context name are those of the request, and its security level is
    at least the request's; anything else leaves the request waiting. Answers
    to several outstanding requests, of one or several managers, users and
    engines, in any order and mixed with such deviations, each end their own
    request only.""",
    "inputs histories", """every single-field deviation of a genuine response
    (message ID, flags, user, engine, context engine, context name, PDU type,
    security level, digest) for every security level of the request, and every
    order of delivery for up to three outstanding requests""",
    """The tests check the mismatches one by one on the message processor with
    a stub security module.""",
    "snmp/message/v3.py snmp/manager/v3.py snmp/dispatcher.py",
    [("prepareDataElements", "snmp/message/v3.py"), ("RequestMessage.push", "snmp/manager/v3.py")],
    ["outcome of wait()"],
    [("outstanding", "message ID to cached request parameters", "snmp/message/v3.py")],
    check=(SCHED, MC, """All single deviations and all delivery orders of the
    stated sets, end to end."""))

prop("D03", "No datagram or receive error ever stops reception",
    """Whatever datagrams arrive -- random bytes, truncated or oversized
    messages, messages of disabled versions, answers to nobody, hostile field
    values -- and whatever receive errors a socket reports, the listener keeps
    running and every later genuine response still ends its request normally.
    Nothing a datagram contains propagates as an exception into the
    application.""",
    "inputs fault_sequences", """every message of a hostile corpus (every
    truncation and boundary-field mutation of genuine traffic, every one-octet
    and two-octet datagram class) and every receive error, singly and in every
    ordered pair of classes, while requests of every version are outstanding""",
    """No test runs a listener at all.""",
    "snmp/dispatcher.py snmp/transport/posix/udp.py snmp/transport/generic/udp.py",
    [("Dispatcher.hear", "snmp/dispatcher.py"), ("listen loop", "snmp/transport/*/udp.py")],
    ["outcome of wait() after the hostile traffic"],
    check=(SCHED, MC, """Every corpus item and every ordered pair of its
    classes, end to end, with both multiplexers."""))

prop("D04", "Every received datagram is heard exactly once; stop always works",
    """While listening, every datagram that arrives on any registered socket is
    handed to the listener exactly once, in order per socket, with its sender's
    address and all its octets. Stopping ends the listening promptly under
    every interleaving with arriving datagrams, a stop issued before the
    listening begins is honoured, datagrams left unread are heard after a
    restart, and closing releases every descriptor.""",
    "schedules histories", """every interleaving (all preemptions up to the
    bound) of datagram arrivals on up to two sockets with stop, restart,
    registration and close, for the POSIX and the portable multiplexer""",
    """No test runs the multiplexers concurrently with anything.""",
    "snmp/transport/posix/udp.py snmp/transport/generic/udp.py snmp/transport/udp.py",
    [("listen/stop", "snmp/transport/posix/udp.py, snmp/transport/generic/udp.py")],
    ["calls of the listener, return of listen(), open descriptors"],
    check=(SCHED, MC, """All interleavings within the stated preemption bound
    on virtual sockets, pipes, poll and select."""))

# ----------------------------------------------------------------- M: managers
prop("M01", "v1/v2c requests end with their response or time out on time",
    """A v1 or v2c request ends exactly as the network decides: if a response
    to it arrives before its timeout, wait() returns its variable bindings (or
    raises its error status) as soon as it has arrived, and otherwise wait()
    raises Timeout exactly when the timeout has elapsed. This holds for every
    pattern of losses, delays and duplicates, however several requests, waits,
    sleeps and abandoned requests overlap.""",
    "schedules histories fault_sequences", """every assignment of network fates
    to the transmissions of the scripts (bounded number of faults), for all
    stated timeouts, refresh periods and orders of waiting""",
    """No test runs a manager against a network.""",
    "snmp/manager/v1.py snmp/manager/v2c.py snmp/dispatcher.py",
    [("Request.wait, Manager.refresh", "snmp/manager/v1.py, snmp/manager/v2c.py")],
    ["outcome and time of wait()"],
    [("requests", "heap of outstanding requests by next refresh", "snmp/manager/v1.py, v2c.py")],
    check=(SCHED, MC, """Every execution of the scripts within the fault
    budget, in virtual time."""))

prop("M02", "Retransmissions keep their schedule and stop when they should",
    """While any of its manager's requests is being waited for, an unanswered
    request (of any protocol version) is sent again once per refresh period,
    counted from its first transmission, and once only when several periods
    were missed. It is never sent again once its response has arrived, its
    timeout has elapsed, or the application has abandoned it, every
    transmission asks for the same thing, and several reports about
    transmissions of an SNMPv3 request with the same outdated clock make it be
    sent again at once only once.""",
    "schedules histories fault_sequences", """every assignment of network fates
    within the fault budget to the transmissions of one to three overlapping
    requests, for all stated timeouts, periods and orders of waiting""",
    """No test runs a manager against a network or a clock.""",
    "snmp/manager/v1.py snmp/manager/v2c.py snmp/manager/v3.py snmp/utils.py",
    [("Request.refresh", "snmp/manager/*.py"), ("ordering by next refresh", "snmp/utils.py ComparableWeakRef")],
    ["times and contents of datagrams sent"],
    check=(SCHED, MC, """Every execution of the scripts within the fault
    budget, in virtual time."""))

prop("M03", "SNMPv3 discovery and time synchronisation always complete",
    """With a conforming agent and any pattern of losses, delays and duplicates
    that lets one exchange through before the timeout, an SNMPv3 request at any
    security level ends with the agent's answer, whether the engine ID was given or not
    or is out of date, whether or not the agent includes its time in
    unauthenticated reports, and after the agent's reboot. No request that carries data leaves
    for an engine that is not known, and each message carries the engine's ID
    and the requested security level.""",
    "schedules histories fault_sequences configurations", """every assignment
    of network fates within the fault budget, for each security level, user,
    known, unknown or stale engine ID, reporting style, reboot or renaming
    point and clock offset""",
    """No test runs the SNMPv3 manager.""",
    "snmp/manager/v3.py snmp/message/v3.py snmp/security/usm/implementation.py snmp/security/usm/timekeeper.py",
    [("State machine", "snmp/manager/v3.py"), ("processUnknownEngineID, processNotInTimeWindow", "snmp/manager/v3.py")],
    ["outcome of wait(), datagrams sent"],
    [("state", "discovery state of the manager", "snmp/manager/v3.py")],
    check=(SCHED, MC, """Every execution within the fault budget against a
    reference agent that implements RFC 3414 section 3.2."""))

prop("M04", "Unauthenticated reports never end a request; genuine ones do",
    """A report that is not authenticated never ends an SNMPv3 request before
    its timeout: if the answer arrives the request returns it, and only if none
    arrives is the report's meaning raised, at the timeout. An authenticated
    error report ends the request at once with the exception for its meaning,
    unless the answer came first, and a report with an invalid digest has no
    effect at all.""",
    "inputs histories fault_sequences", """every kind of report (each USM
    counter and an unknown one), authenticated, unauthenticated, forged or
    unsigned, before, after or instead of the answer, for every security level
    and within the fault budget""",
    """No test delivers reports to a waiting request.""",
    "snmp/manager/v3.py snmp/message/v3.py",
    [("RequestMessage.push, processException", "snmp/manager/v3.py")],
    ["outcome and time of wait()"],
    check=(SCHED, MC, """Every execution within the fault budget with a lying
    agent on the path."""))

prop("M05", "Requests queued during discovery are all sent, in order",
    """SNMPv3 requests issued while the engine is still being discovered or
    synchronised are held back and, as soon as the first genuine reply
    completes that, each is sent exactly once, in the order of issue. None is
    lost: every one that has not expired or been abandoned ends normally, also
    if the request that was doing the discovery expires, is abandoned or fails
    first, and an expired or abandoned one is never sent.""",
    "schedules histories fault_sequences", """every assignment of network fates
    within the fault budget for two to four requests, every order of waiting,
    and short-lived or abandoned requests at every position""",
    """No test runs the SNMPv3 manager.""",
    "snmp/manager/v3.py",
    [("unsent queue: sendAll, poke", "snmp/manager/v3.py")],
    ["order and times of datagrams, outcomes"],
    [("unsent", "requests waiting for discovery", "snmp/manager/v3.py")],
    check=(SCHED, MC, """Every execution of the scripts within the fault
    budget, in virtual time."""))

prop("M06", "Concurrent callers never deadlock, corrupt or lose a request",
    """Several threads may each use managers of their own from one engine, while
    another creates managers or adds users and the listener receives responses:
    whatever the interleaving no thread deadlocks, dies or gets an unexpected
    exception, and every request ends as it would alone -- with its own answer
    if that arrives in time, else Timeout -- and leaves no engine registration.
    The same holds when the garbage collector runs destructors at any moment,
    or a thread is held up at any line.""",
    "schedules", """every interleaving of the application threads and the
    listener with one preemption at any source line of the library or two at
    synchronisation, socket and timer operations; a garbage collection at any
    line; any thread held up for seconds at any line""",
    """No test uses more than one thread, or an engine at all.""",
    "snmp/manager/v1.py snmp/manager/v2c.py snmp/manager/v3.py snmp/dispatcher.py snmp/engine.py snmp/message/v3.py",
    [("lock and activeLock", "snmp/manager/v3.py"), ("lock", "snmp/manager/v1.py, v2c.py"),
     ("locks of message processors and USM", "snmp/message/*.py, snmp/security/usm/implementation.py")],
    ["outcomes of all threads"],
    check=(SCHED, MC, """All schedules within the stated preemption bounds;
    data races narrower than a source line are covered only where the check
    says so."""))

prop("M07", "Finished requests leave nothing behind; strays are ignored",
    """When a request has ended (answered, failed, timed out or abandoned by
    dropping its handle) the library keeps no state for it: message and request
    IDs, queue entries and engine registrations are released, so that use over
    any length of time does not accumulate. Responses and reports that arrive
    for it afterwards are ignored without any effect on later requests, and
    when the last user of an engine ID is gone, that ID can be used under
    another namespace.""",
    "histories fault_sequences", """every sequence up to the stated length of
    request endings (answer, error, timeout, report, drop, late and duplicate
    answers) for every protocol version, repeated, with a census of the
    objects reachable from the engine after each round""",
    """No test runs a manager, let alone repeatedly.""",
    "snmp/manager/v1.py snmp/manager/v2c.py snmp/manager/v3.py snmp/message/v1.py snmp/message/v2c.py snmp/message/v3.py snmp/security/usm/users.py",
    [("close, __del__, uncache", "snmp/manager/*.py, snmp/message/*.py"),
     ("unregisterRemoteEngine", "snmp/manager/v3.py")],
    ["reachable objects, outcomes of later requests, registration of the engine ID elsewhere"],
    check=(SCHED, MC, """All sequences of the stated length; the census counts
    objects by type, whatever containers hold them."""))

prop("M08", "A request that cannot be sent fails by itself, and alone",
    """When a request cannot be sent (the operating system refuses the datagram,
    the message is too large, or its user or security level is not available),
    whether at once, on a retransmission or when it is released from the queue,
    its own get() or wait() raises the reason at that time and the request is
    not sent again. No other call raises the error, and every other request of
    the manager, earlier or later, active or queued, ends with its response or
    with Timeout exactly as if that one were not there, keeps its schedule, and
    is sent no later than discovery and the losses on the network require. No
    wait() becomes a busy loop.""",
    "fault_sequences", """for v1, v2c and v3 (before, during and after discovery):
    every assignment of refusal and loss to the transmissions of up to four
    overlapping requests within the budget, with and without requests that can
    never be sent, for every order of waiting""",
    """No test lets a send fail while several requests are outstanding.""",
    "snmp/manager/v1.py snmp/manager/v2c.py snmp/manager/v3.py snmp/dispatcher.py",
    [("refresh, poke, sendAll, onReport", "snmp/manager/v3.py"),
     ("refresh", "snmp/manager/v1.py, snmp/manager/v2c.py")],
    ["outcomes and their times; transmissions"],
    check=(SCHED, MC, """All executions within the stated fault budget; one
    application thread."""))

prop("M09", "A call sends exactly what it asks for and returns what was answered",
    """A get, getNext, getBulk or set call of any manager sends one kind of PDU,
    its own, with exactly the given object identifiers (however they are written)
    or names and values (of any SMI type), in the given order, and the given
    nonRepeaters and maxRepetitions; every retransmission asks for the same. Its
    result has exactly the variable bindings of the response, in order, with their
    names, types and values, whatever they are (exception values and an empty list
    included). Neither is affected by other calls, before, after or at the same
    time, nor by using the same objects, or those of a result, in several calls.""",
    "inputs histories", """for each version and security level: every verb, every
    list of names from a corpus (up to three of three, each of eight), every form
    of writing them, every value and pair of values from a corpus that covers all
    types and limits, every response of up to two bindings with them, getBulk
    parameters around every boundary; every sequence of two or three calls from a
    palette, one after the other or overlapping, results fed back into set()""",
    """The tests check the PDU classes alone, and no manager.""",
    "snmp/manager/v1.py snmp/manager/v2c.py snmp/manager/v3.py snmp/pdu.py",
    [("get, getNext, getBulk, set", "snmp/manager/v1.py, v2c.py, v3.py"),
     ("VarBind, VarBindList", "snmp/pdu.py")],
    ["PDUs received by an independent agent; results and their items"],
    check=(SCHED, MC, """All cases of the stated product and all sequences of the
    stated length; one application thread."""))

# ------------------------------------------------------------------- E: engine
prop("E01", "An engine opens, shares and releases its resources correctly",
    """Managers get the protocol version, transport domain, community, user,
    security level, local address and waiting mode that were asked for, else
    the engine's defaults; managers given the same local address share a socket
    and others get their own, all work at the same time, and messages up to the
    engine's maximum size are understood. Invalid, unknown or unsupported
    arguments and addresses that cannot be bound are rejected with ValueError
    (or a subclass), TypeError, DiscoveryError or OSError, and leave the engine
    usable, as does a transport that the application connects itself, which is
    refused with ValueError if its domain is already in use.
    Leaving the engine's context always ends its threads and closes every
    descriptor, also after errors and if it was shut down already.""",
    "configurations histories", """every combination of version, domain, local
    address, community or user and waiting mode, every sequence of up to three
    manager creations (valid and invalid) followed by requests on all of them,
    and shutdown after each""",
    """No test covers the engine.""",
    "snmp/engine.py snmp/dispatcher.py snmp/transport/udp.py",
    [("Engine.Manager", "snmp/engine.py"), ("connectTransport, shutdown", "snmp/dispatcher.py")],
    ["datagrams sent, outcomes, open descriptors and threads"],
    check=(SCHED, MC, "All sequences and combinations within the stated bounds."))

prop("E02", "UDP addresses are completed and validated as documented",
    """A UDP address given as a host, as a (host, port) pair or not at all is
    completed with the default address of its domain and the default port of
    its use (161 for agents, 162 for trap listeners, any for local), and given
    parts are kept unchanged. Anything that is not a literal address of the
    domain, or a port outside 1..65535 (or 0 where any port will do), is
    rejected with ValueError or, if it is not text, TypeError.""",
    "inputs", """every combination of domain, use, host from a corpus of valid
    and invalid literals (all strings up to the stated length over a small
    alphabet included) and port around every boundary""",
    """The tests try a few literals per domain.""",
    "snmp/transport/udp.py snmp/transport/__init__.py",
    [("normalizeAddress", "snmp/transport/udp.py")], ["normalizeAddress"],
    check=(ENUM, EXP, """Exhaustive over the stated product; the oracle uses
    Python's ipaddress module."""))

# ---------------------------------------------------------------------- output

def built(id):
    return os.path.exists(os.path.join(ROOT, "mc", "checks", id + ".py"))

def main():
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = sum(p["statement"].count(x) for x in (". ",)) + 1
        assert n <= 3, (p["id"], n)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if built(i):
            t, level, note = C[i]
            checks.append(dict(property=i, quick_cmd=f"./check {i}",
                thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                evidence_file=f"evidence/{i}.json", technique=t, level=level,
                level_note=" ".join(note.split())))
        else:
            na.append(dict(property=i, reason="the check is not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
        not_applicable=na, notes="Nothing in /repo is instrumented: the checks"
            " import a scratch copy of /repo's working tree with the threading,"
            " time, socket and select modules replaced by shims. See DESIGN.md;"
            " this file and properties.jsonl are generated by tools/meta.py.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "pending")

main()
