#!/usr/bin/env python3
"""The properties: writes properties.jsonl and MANIFEST.json (run from anywhere)."""
import json, os, sys

FW = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(FW)
sys.path.insert(0, FW)
import checks  # noqa: E402

PK, AT, AV, CO, TA, VS, RQ = ["radius/src/core/%s.rs" % f for f in ("packet", "attributes", "avp", "code", "tag", "vsa", "request")]
CL, SV = "radius/src/client.rs", "radius/src/server.rs"


def P(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=list(observe), hook_needed=None))


PROPS = [
    P("C01", "Nothing received from the network makes the library panic or loop",
      "Decoding any byte string with any secret, checking any byte strings for authenticity, and reading any received attribute as any type (number, tagged number, address, prefix, date, string, tagged string, hidden password, dictionary accessor) always ends with a value or an error. No received bytes, truncated or inconsistent lengths, empty secrets or wrong-sized authenticators cause a panic, an arithmetic overflow, an out-of-range access or an endless loop.",
      ["inputs"], "every datagram, attribute value, secret and authenticator within the stated sizes",
      "The tests decode a handful of well-formed RFC examples and a few malformed ones; a remote peer chooses all the bytes.",
      [PK, AT, AV], [("length checks before every slice", AV), ("attribute length check", AT), ("header length checks", PK)],
      ["Packet::decode", "Packet::is_authentic_request", "Packet::is_authentic_response", "AVP::encode_*", "rfcNNNN::lookup_*"]),
    P("C02", "Decoding accepts exactly the well-formed packets, and faithfully",
      "A datagram is accepted exactly when it has at least 20 bytes, its length field is between 20 and 4096 and not beyond the datagram's end, and the bytes from 20 to that length are a sequence of attributes whose length bytes are at least 2 and fit. An accepted packet has the datagram's code, identifier and authenticator, the caller's secret, and exactly the datagram's attributes with their types and values in their order; bytes beyond the length field are ignored. A refusal names the lengths that did not fit.",
      ["inputs"], "every datagram within the stated sizes, in particular every combination of length bytes",
      "Tests decode a few fixed packets; the accept/refuse boundary is a relation between several length bytes.",
      [PK, AT], [("header checks", PK), ("attribute loop", AT)], ["Packet::decode", "Packet::lookup_all"]),
    P("C03", "Encoding writes the RFC 2865 layout and never exceeds its limits",
      "A packet is encoded as code, identifier, two length bytes (big-endian, the number of bytes of the whole packet), sixteen authenticator bytes and then its attributes in order, each as type, length including these two bytes, and value. Encoding fails with an encoding error exactly when a value has more than 253 bytes or the packet would have more than 4096; it never writes a wrapped or truncated length.",
      ["inputs"], "every identifier, authenticator, attribute type and value, for the stated shapes and around both limits",
      "Tests encode small fixed packets and one oversized one; the limits and the length arithmetic matter at values the tests never reach.",
      [PK, AT], [("marshal_binary", PK), ("Attributes::encode", AT)], ["Packet::encode"]),
    P("C04", "What is sent is what is received, and is found authentic",
      "A received Access-Request or Status-Server packet, encoded again, has the same bytes. Any request, and any response made from a request, that the library encodes is accepted by the library's own decoder with the same code, identifier and attributes, and passes the corresponding authenticity check with the same secret and request.",
      ["inputs", "programs"], "every packet of the stated shapes, every secret, both hash back ends, any hash function",
      "Tests check single examples of each direction; agreement of two independently written sides over all packets is a universal claim.",
      [PK, AT], [("encode", PK), ("decode", PK), ("is_authentic_*", PK)], ["Packet::encode", "Packet::decode", "Packet::is_authentic_*"]),
    P("C05", "Outgoing packets carry the authenticator the RFCs prescribe",
      "A response made from a request has the wanted code, the request's identifier, authenticator and secret, and no attributes. Encoding a response writes the MD5 of code, identifier, length, the request's authenticator, the attributes and the secret; encoding an Accounting-, Disconnect- or CoA-Request writes the same with sixteen zero bytes in place of the authenticator; Access-Request and Status-Server carry the packet's own authenticator. This holds with both hash back ends.",
      ["inputs"], "every code, identifier, authenticator, attribute and secret of the stated sizes, for an arbitrary hash function",
      "Tests compare a few RFC vectors under one back end; which bytes enter the hash is a statement about all inputs.",
      [PK], [("encode (md5 and openssl variants)", PK), ("make_response_packet", PK)], ["Packet::make_response_packet", "Packet::encode"]),
    P("C06", "Requests are found authentic exactly when the RFCs say so",
      "A request is authentic exactly when it has a whole header, the secret is not empty, and it is an Access-Request or Status-Server, or an Accounting-, Disconnect- or CoA-Request whose authenticator is the MD5 of the packet with a zeroed authenticator followed by the secret. Every other code, and every other authenticator, is refused.",
      ["inputs"], "every request and secret of the stated sizes, every forged authenticator, for an arbitrary hash function",
      "A test shows that one good packet passes; that no forged one passes is a statement about all of them.",
      [PK], [("is_authentic_request (md5 and openssl variants)", PK)], ["Packet::is_authentic_request"]),
    P("C07", "Responses are found authentic exactly when the RFCs say so",
      "A response is authentic for a request exactly when both have a whole header, the secret is not empty, and the response's authenticator is the MD5 of its code, identifier and length, the request's authenticator, its attributes and the secret. Every other authenticator is refused.",
      ["inputs"], "every response, request and secret of the stated sizes, every forged authenticator, for an arbitrary hash function",
      "A test shows that one good response passes; that no forged one passes is a statement about all of them.",
      [PK], [("is_authentic_response (md5 and openssl variants)", PK)], ["Packet::is_authentic_response"]),
    P("C08", "User passwords are hidden exactly as RFC 2865 5.2 prescribes",
      "Hiding a password of at most 128 bytes gives whole sixteen-byte blocks, at least one, each the zero-padded password block xor the MD5 of the secret and the previous hidden block (for the first, the request authenticator). A longer password, an empty secret and an authenticator that has not sixteen bytes are each refused with their own error, so no password leaves in clear. This holds with both hash back ends.",
      ["inputs"], "every password, secret and authenticator of the stated lengths, for an arbitrary hash function",
      "Tests try four lengths with one secret and only compare lengths and the round trip; a symmetric mistake passes them.",
      [AV], [("from_user_password (md5 and openssl variants)", AV)], ["AVP::from_user_password", "rfc2865::add_user_password"]),
    P("C09", "Hidden user passwords are recovered exactly",
      "Reading a hidden value of 16 to 128 bytes gives the xor of each block with the MD5 of the secret and the previous block (first: the request authenticator), cut at the first zero byte, and any password without zero bytes put into a packet comes back unchanged through the packet. Values of other sizes, empty secrets and wrong-sized authenticators are refused with an error.",
      ["inputs"], "every hidden value, secret and authenticator of the stated lengths, for an arbitrary hash function",
      "Tests round-trip four passwords with one key.",
      [AV, "radius/src/core/rfc2865.rs"], [("encode_user_password (md5 and openssl variants)", AV)], ["AVP::encode_user_password", "rfc2865::lookup_user_password"]),
    P("C10", "Tunnel passwords are salted, hidden and recovered",
      "Hiding a tunnel password of at most 240 bytes gives the tag (zero when unused), a two-byte salt whose most significant bit is set and whose other bits are drawn anew from the random generator, and whole sixteen-byte blocks each xor-ed with the MD5 of the secret and the previous hidden block (first: the request authenticator and the salt). Reading it gives the tag and the password, cut at the first zero byte. Longer passwords, values that are not 3 + 16n bytes with 1 <= n <= 15, salts without the high bit, empty secrets and wrong-sized authenticators are refused.",
      ["inputs"], "every password, tag, salt, secret and authenticator of the stated lengths, for an arbitrary hash function, with both hash back ends",
      "Tests round-trip four passwords with one key and look only at lengths.",
      [AV], [("from_tunnel_password, encode_tunnel_password (md5 and openssl variants)", AV)], ["AVP::from_tunnel_password", "AVP::encode_tunnel_password"]),
    P("C11", "Numbers, addresses, prefixes and dates are exact on the wire",
      "32- and 16-bit numbers and IPv4 and IPv6 addresses are written big-endian in 4, 2, 4 and 16 bytes and read back unchanged; a date is its Unix time in four bytes, for every 32-bit time; an IPv6 prefix is written after a zero byte and its length in bits, an IPv4 prefix after two leading bytes, and both read back as the bytes that were given. A value of any other size is refused with a length error that reports its size, and an IPv4 prefix of other than four bytes, or an IPv6 prefix of more than sixteen, is refused when written.",
      ["inputs"], "every value of every fixed-size type (all 2^32 numbers, addresses and dates, all 2^128 IPv6 addresses), every wrong size up to 18",
      "Tests use one value per type and no wrong sizes for most.",
      [AV], [("from_* and encode_* of the fixed-size types", AV)], ["AVP::from_u32", "AVP::encode_u32", "AVP::from_date", "AVP::encode_ipv6_prefix", "..."]),
    P("C12", "Strings and tagged values are exact on the wire",
      "A string is written as its bytes and read back unchanged; a value that is not UTF-8 is refused. A tagged number is its tag (zero when unused) and four big-endian bytes, and is read only when it has five bytes and a tag of at most 0x1f; a tagged string is written as its tag, if any, and its bytes. Reading a tagged string takes a first byte of 1 to 0x1f as the tag, a larger one as part of the string, and refuses an empty value or a zero tag.",
      ["inputs"], "every string of the stated sizes, every tag, every number, every received value of the stated sizes",
      "Tests use one string and two tags.",
      [AV, TA], [("from_string, encode_string, from_tagged_*, encode_tagged_*", AV), ("Tag", TA)], ["AVP::from_tagged_string", "AVP::encode_tagged_string", "..."]),
    P("C13", "A packet's attributes are an ordered multimap",
      "After any additions and deletions a packet holds exactly the attributes that were added and not deleted since, in the order of addition: a lookup gives the first of a type, a lookup of all gives all of a type in order, and the wire carries all of them in order. Deleting a type removes all attributes of that type and no other; none of this changes code, identifier, authenticator or secret, and a copy of a packet is equal to it and independent of it.",
      ["inputs", "histories"], "one operation from every packet with up to three attributes of any types and values, and six-step histories",
      "Tests add, look up and delete one attribute.",
      [PK, AT], [("Attributes::add/extend/del/lookup/lookup_all", AT)], ["Packet::add", "Packet::extend", "Packet::delete", "Packet::lookup", "Packet::lookup_all", "Packet::encode"]),
    P("C14", "Every dictionary attribute has exactly its own typed accessors",
      "For every attribute of the bundled dictionaries the accessor module holds its type number, and adding a value through its accessor appends one attribute of exactly that type number with the value in the wire form of its dictionary type (number, address, prefix, date, string, octets of any or a fixed size, tagged, or hidden with the packet's own secret and authenticator). Looking it up gives the first such value, looking up all gives all in order, and deleting removes all; attributes of other types are never found, changed or removed, and a value of the wrong form is refused.",
      ["inputs", "configurations"], "every attribute of /repo/dicts, every value of the stated sizes, with attributes of other types present",
      "Tests go through about a dozen of the 159 attributes, one value each.",
      ["radius/src/core/rfc*.rs", "dicts", "code-generator/src/main.rs"], [("generated add_/lookup_/lookup_all_/delete_ functions", "radius/src/core/rfc*.rs")], ["rfcNNNN::add_*", "rfcNNNN::lookup_*", "rfcNNNN::lookup_all_*", "rfcNNNN::delete_*"]),
    P("C15", "Every named dictionary value has its dictionary number",
      "For every named value of the bundled dictionaries the accessor module has a constant of that name whose number is the dictionary's, on the attribute it belongs to, and a packet that carries it has that number on the wire.",
      ["configurations"], "every VALUE line of /repo/dicts",
      "Tests use a handful of the 179 constants.",
      ["radius/src/core/rfc*.rs", "dicts"], [("generated constants", "radius/src/core/rfc*.rs")], ["rfcNNNN::*"]),
    P("C16", "Long values are split over attributes and put together again",
      "Adding a value to an attribute that may span several (EAP-Message and the like) splits it, in order, into attributes of at most 253 bytes of that type, all but the last full, and looking it up gives the concatenation of all attributes of that type in order, which is the value that was added. A value with no such attribute present is reported absent; other attributes stay untouched.",
      ["inputs"], "every value of the stated lengths around the multiples of 253, with attributes of other types in between",
      "One test, one length.",
      ["radius/src/core/rfc2869.rs", "radius/src/core/rfc5904.rs", "code-generator/src/main.rs"], [("generated add_/lookup_ functions of concat attributes", "radius/src/core/rfc2869.rs")], ["rfc2869::add_eap_message", "rfc2869::lookup_eap_message"]),
    P("C17", "Vendor-specific attributes have the RFC 2865 5.26 layout",
      "A vendor-specific attribute made from a vendor id, a vendor type and a string is the four bytes of the vendor id (big-endian), the vendor type, a length that counts these two and the string, and the string's bytes; a tagged one has its tag between length and string, and the length counts it. Put into a packet it travels under type 26 unchanged.",
      ["inputs"], "every vendor id, vendor type and string of the stated sizes up to 247 bytes",
      "The tests have two fixed examples.",
      [VS], [("StringVSA", VS)], ["StringVSA::new", "StringVSA::message", "ToVSA"]),
    P("C18", "Packet codes map one to one, and only sendable ones are sent",
      "Every code byte the RFCs define is read as its code, which is written as the same byte and has its RFC name; every other byte is read as invalid. Encoding refuses Status-Client, reserved and invalid codes with an unknown-code error, and encodes every other code with its byte first.",
      ["inputs"], "all 256 code bytes",
      "Tests use five codes.",
      [CO, PK], [("Code::from, Code::string", CO), ("encode's match on the code", PK)], ["Code::from", "Code::string", "Packet::encode"]),
    P("C19", "Debug output never shows the shared secret",
      "The debug rendering of a packet is the same whatever the shared secret is, and still shows the code, the identifier and the attributes.",
      ["inputs"], "every pair of secrets of the stated sizes",
      "One test looks for one secret's digits in one packet.",
      [PK], [("Debug for Packet", PK)], ["Packet: Debug"]),
    P("C20", "Fresh packets are unpredictable",
      "A packet made from scratch has the wanted code and secret and no attributes, and sixteen authenticator bytes of which every bit is drawn from the random generator, each byte separately and anew for every packet. The identifier is drawn likewise, unless the caller chose one, which is then kept.",
      ["inputs"], "every output of the random generator",
      "A test sees one outcome of the generator; reuse or a fixed bit is invisible in it.",
      [PK], [("_new", PK)], ["Packet::new", "Packet::new_with_identifier"]),
    P("C21", "The server hands on exactly the requests it may",
      "The server asks the secret provider for the secret of a datagram's sender and passes the datagram to the request handler, once, exactly when the provider gives a non-empty secret, the datagram is an authentic request under it (unless the server was told to skip that validation), and it is a well-formed packet. The handler gets that packet with the sender's secret, the sender's address and the server's own. Anything else is dropped without an answer, and the server goes on with the next datagram, also after a failing provider or handler. Datagrams are read up to the buffer size: 1500 bytes unless set otherwise.",
      ["inputs", "faults"], "every datagram and secret of the stated sizes, both validation settings, failing and empty secret providers, failing handlers",
      "The server test sends one good packet; what must not reach the handler is every other datagram.",
      [SV], [("process_request", SV), ("run_loop", SV)], ["Server::run", "RequestHandler::handle_radius_request", "SecretProvider::fetch_secret"]),
    P("C22", "A request that is being handled is not handled twice",
      "While the handler works on a request, another one of the same sender (address and port) and identifier is dropped. Requests of other senders or with other identifiers are handled at the same time. As soon as the handling has ended, with success or with an error (or because the handler panicked), the next request with that sender and identifier is handled again.",
      ["inputs", "histories", "schedules"], "every identifier and IPv4 sender, for the stated histories of up to three requests",
      "The tests send one request at a time.",
      [SV], [("undergoing_requests", SV), ("UndergoingRequest", SV)], ["Server::run", "RequestHandler::handle_radius_request"],
      [("undergoing_requests_lock_arc", "keys of the requests being handled", SV)]),
    P("C23", "The server runs until it is told to stop",
      "Listening binds one socket and fails when that fails; the listening address is the socket's. A running server ends, with success, when its shutdown trigger fires, be that at once, while it waits or between requests, and can then be run again; it ends with an error when its socket fails, and not otherwise.",
      ["inputs", "faults", "schedules"], "the trigger at every stated moment, both polling orders, socket failures",
      "One test stops one idle server.",
      [SV], [("run", SV), ("listen", SV)], ["Server::listen", "Server::run", "Server::get_listen_address"]),
    P("C24", "The client returns the authentic response, or the right error, in time",
      "The client binds a fresh socket of the destination's address family, connects it to the destination, sends the encoded request once and returns the packet received exactly when it is an authentic response to that request (under its secret) with its identifier, well-formed, and in time. A connection slower than the connection timeout is a connection timeout error; a response that has not arrived within the socket timeout a socket timeout error; without a timeout it waits; every failure (bind, connect, encode, send, receive, unusable response) is reported as what it is, and a request that cannot be encoded is not sent.",
      ["inputs", "faults", "schedules"], "every request and response of the stated sizes, every destination, every single failure, times in every order relevant to the two limits",
      "The client tests use one good response and one timeout each; a forged or late response is never tried.",
      [CL], [("send_packet", CL), ("request", CL), ("connect", CL)], ["Client::send_packet"]),
]

LEVEL_NOTE = ("Bounded: the solver's verdict (CBMC's SAT back end, through Kani, on MIR compiled from /repo's working tree) covers every "
              "value within the stated bounds; unwinding assertions are on, every harness has a reachability witness, and "
              "counterexamples are replayed against a native build before they are reported. Trusts Kani's translation, CBMC, and "
              "the stand-ins listed in the evidence (hash as an uninterpreted function, random generator as a symbolic tape, message formatting stubbed out).")


def main():
    done = set(checks.CHECKS)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="python3 fw/setup.py",
               checks=[dict(property=p["id"], quick_cmd="python3 fw/run.py %s --tier quick" % p["id"],
                            thorough_cmd="python3 fw/run.py %s --tier thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"],
                            technique=checks.CHECKS[p["id"]].get("technique", "bounded symbolic execution of the compiled Rust (Kani/CBMC), SAT-decided, counterexamples replayed natively"),
                            level="model_checking", level_note=LEVEL_NOTE + " Bounds: " + checks.CHECKS[p["id"]]["bounds"])
                       for p in PROPS if p["id"] in done],
               not_applicable=[dict(property=p["id"], reason=NOT.get(p["id"], "check under construction")) for p in PROPS if p["id"] not in done])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


NOT = {}
if __name__ == "__main__":
    main()
