"""What each check runs: jobs, bounds and assumptions."""
import gen

GENERATED = {"c14": gen.c14, "c15": gen.c15, "c16": gen.c16}


def job(name, *mods, feature="md5", **kw):
    return dict(name=name, mods=list(mods), feature=feature, **kw)


def both(*mods, filters=None, **kw):
    """The same harnesses for both hash back ends (for the second, only those that reach it)."""
    return [job("md5", *mods, j=5, **kw), job("openssl", *mods, feature="openssl", j=5, filters=filters, **kw)]


def net(mod):
    return job("md5", mod, net=True, cbmc=["--unwindset", "memcmp.0:32"], **{"with": ["srv"]})


FMT = "Building of error and debug messages (alloc::fmt::format, core::fmt::write) has an empty body in the model."
UF = ("MD5 is an uninterpreted function: what is shown holds for every function from byte strings (of at most 64 bytes in the model; "
      "longer inputs are reported as a model bound) to 16 bytes. The openssl crate is replaced by a stand-in with the same interface "
      "whose hash is that function.")
CONST = "Where stated, the hash is an arbitrary constant, so that long inputs stay within reach."
TAPE = "rand's thread generator is replaced by a symbolic tape of 160 bytes: every outcome of the generator is considered."
NET = ("tokio is replaced by a stand-in over a modelled network and a virtual clock; awaiting runs the awaited future to its end on the stack, "
       "so a task runs as soon as it is spawned, and what happens while a handler waits happens inside of it.")
STD = ("In server.rs and client.rs std's sets and maps, locks, shared pointers and I/O errors are replaced by stand-ins with the same interface, "
       "and `.await` by the call that runs a future to its end; the text is otherwise the current source's.")
SCHED = "schedules beyond those of the model (see the assumptions)"
ALLOC = "Allocation does not fail."

CHECKS = {
    "C01": dict(
        jobs=both("c01", filters=["req", "resp", "pw", "got_password", "got_tunnel"]),
        bounds="datagrams of every size up to 28 bytes with every content (thorough: 32); one attribute of every length byte in datagrams of 60, 275 and 300 bytes; "
               "authenticity checks of 0, 19, 20 and 23 bytes with secrets of 0, 1 and 3 bytes; values of 0..6, 16..19 and 253 bytes read as every fixed-size type; strings of up to 4 bytes (thorough 7); "
               "hidden passwords of 0, 1, 16, 19 and 35 bytes (thorough 127, 128, 243) with secrets of 0..3 and authenticators of 0, 5, 15 and 16 bytes; 19 accessor/value-size pairs on received packets",
        outside="longer symbolic contents; failure of the openssl library itself (its panic in the authenticity checks is not input-driven)",
        assumptions=[FMT, UF, CONST, ALLOC]),
    "C02": dict(
        jobs=[job("md5", "c02", filters=["any", "shape", "long"], j=4), job("huge", "c02", filters=["huge"], j=2)],
        bounds="every datagram of up to 30 bytes (up to five attributes); attribute regions of four fixed shapes with symbolic types and values; one attribute of every length 3..255; datagrams of 4099 bytes with a length field of 4096 and 4097 (thorough: 4095 and 3845)",
        outside="symbolic length bytes beyond 30 bytes", assumptions=[FMT, ALLOC]),
    "C03": dict(
        jobs=[job("md5", "c03")],
        bounds="up to four attributes of fixed sizes (0..16 bytes) with symbolic types, values, identifier and authenticator; one value of every size in 250..260 and 500..520; packets of 4095, 4096 and 4097 bytes; thorough: 65 811 bytes of attributes",
        outside="other shapes", assumptions=[FMT, ALLOC]),
    "C04": dict(
        jobs=both("c04", filters=["accept", "acct", "disconnect", "coa", "reject", "challenge"]),
        bounds="forwarding: 0..3 attributes of fixed sizes; delivery: every request and response code with no attribute or one of 3 bytes, secrets of 3 bytes; one attribute of 253 bytes",
        outside="other shapes (their layout is C03/C05's, their reading C02's)", assumptions=[FMT, UF, ALLOC]),
    "C05": dict(
        jobs=both("c05"),
        bounds="each of the 11 hashed codes with one attribute of 2 bytes and a 5-byte secret; four of them with 0 or 2 attributes and secrets of 1, 3 and 16 bytes",
        outside="longer packets and secrets", assumptions=[FMT, UF, ALLOC]),
    "C06": dict(
        jobs=both("c06"),
        bounds="requests of 0..25 and 40 bytes, secrets of 0, 1, 2, 3 and 16 bytes; all codes; all authenticators",
        outside="longer packets and secrets", assumptions=[FMT, UF, ALLOC]),
    "C07": dict(
        jobs=both("c07"),
        bounds="responses of 0..25 and 40 bytes, requests of 0..22 and 30 bytes, secrets of 0, 1, 2, 3 and 16 bytes; all authenticators",
        outside="longer packets and secrets", assumptions=[FMT, UF, ALLOC]),
    "C08": dict(
        jobs=both("c08"),
        bounds="passwords of 0, 1, 15, 16, 17, 33, 64, 128 bytes (thorough: 24 lengths), secrets of 0 to 17 bytes, refused lengths 129, 253, 256 (thorough also 144, 160, 512), authenticators of 0, 15, 16, 17, 32 bytes",
        outside="other lengths", assumptions=[FMT, UF, ALLOC]),
    "C09": dict(
        jobs=both("c09"),
        bounds="hidden values of 16 and 32 bytes (thorough: up to 128), acceptance at 128, refusal at 1, 15, 129, 253; round trips of 0, 1, 16, 17, 32 bytes",
        outside="passwords with NUL bytes (they are cut, by design of the padding); hidden values that are not whole blocks", assumptions=[FMT, UF, CONST, ALLOC]),
    "C10": dict(
        jobs=both("c10"),
        bounds="passwords of 0, 1, 16, 17 and 240 bytes (thorough: 16 lengths), refusal at 241 and 496; hidden values of 19 and 35 bytes (thorough up to 131), acceptance at 243; round trips up to 17 bytes (thorough 33)",
        outside="passwords with NUL bytes; RFC 2868's length byte inside the plain text, which the library does not write", assumptions=[FMT, UF, CONST, TAPE, ALLOC]),
    "C11": dict(
        jobs=[job("md5", "c11")],
        bounds="every value of every fixed-size type; every wrong size from 0 to 18; prefixes of every size from 0 to 20",
        outside="dates outside the unsigned 32-bit range", assumptions=[FMT, ALLOC]),
    "C12": dict(
        jobs=[job("md5", "c12")],
        bounds="strings of 0..4 bytes (thorough: up to 9) with every content, ASCII strings of 253; every tag and number; tagged values of 0..6 bytes",
        outside="longer non-ASCII strings", assumptions=[FMT, ALLOC]),
    "C13": dict(
        jobs=[job("md5", "c13")],
        bounds="one operation from every packet with 0..3 one-byte attributes of any types; six histories of eight operations with fixed types and any values",
        outside="longer lists", assumptions=[FMT, ALLOC]),
    "C14": dict(
        jobs=both("c14", filters=["password", "tunnel_password"]),
        bounds="every attribute of every dictionary in /repo/dicts: two values of the attribute's type (every value of the fixed-size types; strings and octets of 2 bytes; dates in two ranges of 256 s), one malformed value, "
               "in a packet that also holds an attribute of each neighbouring type number",
        outside="longer strings (C12), other sizes (C11)", assumptions=[FMT, UF, TAPE, ALLOC]),
    "C15": dict(
        jobs=[job("md5", "c15")],
        bounds="every VALUE line of every dictionary in /repo/dicts", outside="", assumptions=[FMT, ALLOC]),
    "C16": dict(
        jobs=[job("md5", "c16")],
        bounds="values of 0, 1, 252, 253, 254, 506, 507 and 600 bytes (thorough: 759, 760, 1013) with one symbolic byte at any place; six parts of 0..3 bytes",
        outside="other lengths", assumptions=[FMT, ALLOC]),
    "C17": dict(
        jobs=[job("md5", "c17")],
        bounds="values of 0, 1, 5 and 247 bytes (tagged: 0, 1, 6, 246; thorough: also 16, 128, 253), every vendor id, type and tag",
        outside="values of more than 253 bytes, whose length does not fit the length byte", assumptions=[FMT, ALLOC]),
    "C18": dict(
        jobs=both("c18", filters=["write"]),
        bounds="all 256 code bytes; packets with no attribute and with one", outside="", assumptions=[FMT, UF, CONST, ALLOC]),
    "C20": dict(
        jobs=[job("md5", "c20")],
        bounds="every tape of 160 random bytes; two packets in a row", outside="quality of the generator itself", assumptions=[FMT, TAPE, ALLOC]),
    "C19": dict(
        jobs=[job("md5", "c19", nightly=["formatting_options"], restrict=True)],
        bounds="two secrets of 3, or 1 and 5, or 0 and 4 bytes; every identifier and authenticator; no attribute or one of 2 bytes with every type and value; codes 1, 2, 4; the plain rendering {:?}",
        outside="the alternate rendering {:#?}; other shapes",
        assumptions=[ALLOC, "Bytes, numbers and strings inside the rendering are written in a form of fixed length that is injective as the real one is."]),
    "C21": dict(
        jobs=[net("c21")],
        bounds="one datagram of 19, 20, 22, 23 (thorough 26) bytes with every content, secret of 3 bytes, with and without authenticity validation; a datagram of 26 bytes in a buffer of 23; two datagrams of which the first is malformed, has no secret or an empty one, finds no local address, or fails in the handler",
        outside="other datagram sizes (their authenticity is C06's, their reading C02's); IPv6 senders; " + SCHED,
        assumptions=[FMT, UF, ALLOC, NET, STD]),
    "C22": dict(
        jobs=[net("c22")],
        bounds="two or three bare requests with every code, identifier and IPv4 sender: one while another is being handled, two while another is being handled, one after another was handled successfully or not",
        outside="handlers that panic or are abandoned (the model has no unwinding; the repair bb9af47 concerns them); requests whose handling overlaps without one ending inside the other; more than three requests; IPv6 senders; " + SCHED,
        assumptions=[FMT, ALLOC, NET, STD,
                     "Addresses and port numbers are rendered by a shorter function that is injective as the real one is."]),
    "C23": dict(
        jobs=[net("c23")],
        bounds="up to two requests; the trigger fires at once, at the second poll, or while the server waits; both polling orders of select!",
        outside="the text of the address listened at; " + SCHED, assumptions=[FMT, ALLOC, NET, STD]),
    "C24": dict(
        jobs=[job("md5", "c24", net=True, j=6, cbmc=["--unwindset", "memcmp.0:32"])],
        bounds="bare requests with every identifier, authenticator and secret of 3 bytes (Access-Request, Status-Server; thorough: Accounting- and CoA-Request); answers of 0, 1, 19, 20 and 23 bytes with every content; every IPv4 and IPv6 destination; "
               "times in representative orders (connecting, sending and answering in time, too late, in time for the other limit only), and every time below 256 ms where nothing comes or something fails",
        outside="larger answers (their authenticity is C07's, their reading C02's); moments at which answer and limit coincide; " + SCHED,
        assumptions=[FMT, UF, ALLOC, NET, STD, "Vectors of more than 64 bytes have 64 in the model (the receive buffer; the size asked for is checked)."]),
}

for _p in ("C14",):  # under construction
    CHECKS.pop(_p)
