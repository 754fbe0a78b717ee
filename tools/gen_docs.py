#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, Q, R, S, H, W, B = "src/validation.rs", "src/query.rs", "src/rr.rs", "src/ser.rs", "src/http.rs", "wasmpack/src/lib.rs", "src/base32.rs"
props = []
def P(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ANCH = "simulated trust anchors for the root, as nobody has the private keys of the real one (src/sim.rs, --cfg dnssec_sim)"
NETH = "TCP streams and listeners which the simulator decides about (src/sim.rs, --cfg dnssec_sim)"
P("C01", "Only what a zone's operator published is ever accepted",
  "Whatever records somebody on the network, a resolver or the operator of some other zone supplies, and however they are arranged, verification only accepts record sets exactly as the operator of the zone holding their name published them, under an unbroken chain of signatures and delegations from the trusted root keys. A signature, key or digest which belongs to somebody else, covers other, fewer or more records, has been tampered with, is of an unsupported or downgraded kind, or is made by a key which may not sign zone data never makes a record set acceptable.",
  ["inputs", "histories", "fault_sequences"], "all zone trees, all keys and signatures, honest or malicious, from any time, and all combinations, omissions, additions and alterations of records delivered to the client",
  "The tests verify a handful of recorded proofs and flip single bytes in them; no test holds keys with which a neighbouring zone could misbehave.",
  [V, S, R, "src/crypto"],
  [("a zone only signs names within it", V + " name_in_zone, verify_rr_stream"), ("DS to DNSKEY to records", V + " verify_dnskeys, verify_rrsig"), ("a record set is verified as a whole", V + " verify_rrsig"), ("strict parsing", S + " parse_rr_stream")],
  ["records returned by verification"], ANCH, [("zones_verified", "zones whose keys have been linked to the root", V + " verify_rr_stream")])
P("C02", "A wildcard is only accepted where nothing closer exists",
  "A record set which a zone published at a wildcard is accepted under some other name only if the same stream proves, with denial records signed by that wildcard's own zone, that the name below the wildcard's parent which leads to the queried name does not exist. No denial record from elsewhere, of an unknown kind, about another name, or which shows the name to exist makes a wildcard acceptable at an existing name, at names below it, or below a delegation.",
  ["inputs", "histories", "fault_sequences"], "all zones with wildcards, every name around and below them, and all combinations of genuine and malicious denial records of both kinds, from any zone",
  "The tests check three recorded wildcard proofs and a few names next to them; whether a denial covers a name depends on orderings and hashes over all names.",
  [V, R, B], [("denial records are matched to wildcards", V + " verify_rr_stream (nsec and nsec3 handling)"), ("canonical name order", V + " nsec_ord"), ("NSEC3 hashing", V + ", src/crypto/hash.rs, src/base32.rs")],
  ["records returned by verification"], ANCH)
P("C03", "Validity window and cache lifetime never exceed any link's",
  "What verification reports is never valid earlier than the latest inception nor later than the earliest expiry among signatures it needed, nor cacheable for longer than the smallest TTL which was signed, and for a stream with a single signature per set it is exactly those. This holds for every time and TTL, including 32-bit times which wrap around, for signatures from different times mixed together, and whatever unsigned TTLs say.",
  ["inputs", "histories", "configurations"], "all combinations of inception, expiry and TTL values over all links of a chain, of zones re-signed at different times",
  "The tests assert the window of a few recorded proofs, all of whose links date from about the same time.",
  [V], [("intersection of windows and minimum of TTLs", V + " verify_rr_stream"), ("serial number arithmetic", V + " resolve_time")], ["valid_from, expires and max_cache_ttl of a verified stream"], ANCH)
P("C04", "Everything an honest signed zone publishes can be proven within ten queries",
  "If all zones on the way are signed with supported algorithms and the resolver is honest, then for every existing name and type, directly or by way of aliases and wildcards, for which ten queries are enough, a proof is built, it verifies as valid now, and following aliases from the name in it leads to exactly the published records. This holds however the resolver arranges, compresses or capitalises its answers, whatever unrelated records it adds and in whatever order the answers arrive.",
  ["inputs", "schedules", "configurations"], "all honest zone trees (names of printable characters, depths, algorithms, key arrangements, denial methods, record contents), all queries into them, all answer layouts and arrival orders",
  "The tests cover eight recorded names in two zones, and the live ones need a network.",
  [Q, V, S, R], [("walk up to the root", Q + " ProofBuilder"), ("response parsing", Q + " handle_response, " + S), ("verification", V + " verify_rr_stream"), ("alias resolution", V + " resolve_name")],
  ["the finished proof, the verified stream and resolve_name's result"], ANCH)
P("C05", "The order of records and responses does not change the outcome",
  "Verifying the records of a stream of genuine records in any order leads to the same verdict, the same accepted records, the same validity window and cache lifetime, and the same alias resolution. The same holds for responses arriving in any order and laid out in any way while a proof is built.",
  ["inputs", "schedules"], "all permutations of streams of genuine records, also incomplete, mixed from several times or containing unrelated zones, and all arrival orders of responses",
  "The tests only ever try the one or two orders they were recorded in.",
  [V, Q], [("zones are revisited until nothing changes", V + " verify_rr_stream"), ("queries are independent of each other", Q + " process_response")], ["verdicts over permuted streams"], ANCH)
P("C06", "Following aliases is exact and always ends",
  "Resolving a name within verified records follows every alias for it, and every subtree alias strictly above it on a label boundary, and returns exactly the records at the end of that. If aliases form a cycle or lead to a name too long to exist, nothing is returned, and resolving always ends.",
  ["inputs", "histories"], "all graphs of aliases which operators may publish, also as mixed from several points in time, and all names",
  "The tests resolve three fixed names; cycles, subtree aliases and rewritten names of extreme length appear in none of them.",
  [V, R], [("alias following", V + " VerifiedRRStream::resolve_name")], ["resolve_name's result"], ANCH)
P("C07", "Nothing received can crash, hang or exhaust the client",
  "No message, record stream or name from the network, however malformed and including correctly signed records of hostile operators, makes parsing, proof building, verification, alias resolution or JSON generation panic, overflow, run for ever or use memory out of proportion to the size of the input.",
  ["inputs", "fault_sequences"], "all byte strings, in particular all corruptions of genuine messages and streams, and all records at the edges of their formats, signed or not",
  "The tests parse well-formed data; the fuzz targets hold no keys, so they never get past the first signature.",
  [S, R, Q, V, B], [("bounds checks while reading", S), ("recursion and length limits for names", S + " read_wire_packet_labels"), ("bitmap and length checks", R), ("iteration limits", V)], ["return or panic, memory use, CPU time"], ANCH)
P("C08", "Hostile proofs cannot make verification expensive",
  "Verifying a stream performs at most one public key operation per signature in it, and a number of hash computations bounded by its keys times its delegations plus a constant number per wildcard answer. This holds whatever keys, signatures, delegations, loops and denial records with expensive parameters the stream contains.",
  ["inputs", "fault_sequences"], "all streams, in particular those signed by hostile operators with colliding key tags, many signatures, delegation loops and costly denial parameters",
  "The tests never count operations and contain no amplification attempts.",
  [V, "src/crypto"], [("limit on failed signatures", V + " verify_rrsig, verify_dnskeys"), ("zones handled once", V + " verify_rr_stream"), ("NSEC3 iteration limit", V)], ["counts of signature checks and hashes"], "counters for cryptographic operations (src/sim.rs, --cfg dnssec_sim)")
P("C09", "A builder asks for each needed key and delegation once, ten at most",
  "Building a proof asks for the record wanted first and then, exactly once each, for the keys and (except for the root) the delegation of every zone which signed anything received so far, in well-formed queries with DNSSEC requested, and never makes more than ten queries in all. It waits for more exactly as long as answers to these are missing, and yields a proof exactly if each was answered within the limit.",
  ["inputs", "schedules", "fault_sequences"], "all names and types, all sequences of proper, odd, malformed, duplicated, lost and reordered responses",
  "The tests only build proofs against a live resolver with short, well-behaved chains.",
  [Q, R], [("set of requested zones and count of pending queries", Q + " ProofBuilder::process_response"), ("query encoding", Q + " build_query")], ["queries returned, awaiting_responses, finish_proof"], None, [("dnskeys_requested, pending_queries, queries_made", "what has been asked and is still missing", Q + " ProofBuilder")])
P("C10", "A refused response leaves no trace in the proof being built",
  "A response which is truncated, malformed, not a response, not authenticated by the resolver, carries an error or holds no or undecodable answers is refused. Refusing it changes nothing: afterwards the builder behaves exactly as one which never saw it, down to the bytes and the TTL of the finished proof.",
  ["inputs", "fault_sequences", "histories"], "all sequences of responses to refuse in between good ones",
  "No test feeds a bad response to a builder and continues.",
  [Q], [("header checks and parsing", Q + " handle_response"), ("state is only updated on success", Q + " process_response")], ["process_response's result and the finished proof"])
P("C11", "The blocking client survives any segmentation and any failure of its connection",
  "Over a connection which splits or merges data at will, interrupts calls, stalls, closes or fails at any point, the blocking client writes exactly the framed queries called for, and returns the proof made of the responses received in full if they suffice, or else an error. It never returns a proof from partial data, mixes up connections, spins, or waits for more once it has all it asked for or can no longer succeed, and always closes its connection.",
  ["schedules", "crash_points", "fault_sequences"], "all ways TCP may deliver a conversation and all points at which it may fail, for all conversations",
  "The tests using connections need a live resolver, which neither splits nor breaks anything on demand.",
  [Q], [("length-prefixed framing over read_exact and write_all", Q + " send_query, read_response"), ("conversation", Q + " build_proof_impl")], ["bytes on the simulated connection, the call's result"], NETH)
P("C12", "Asynchronous clients are as robust, independent of each other and cancellable",
  "Any number of asynchronous clients running at once, under any scheduling of their tasks and any behaviour of their connections, each do and return what the blocking client would. Cancelling one at any point closes its connection and affects no other.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings of task polls, wake-ups, deliveries, failures and cancellations",
  "The asynchronous functions have no offline test at all.",
  [Q], [("length-prefixed framing over asynchronous I/O", Q + " send_query_async, read_response_async"), ("conversation", Q + " build_proof_impl")], ["bytes on the simulated connections, results of the tasks"], NETH)
P("C13", "Every HTTP request gets one complete, correct response of its own",
  "For every well-formed request the server sends exactly one well-formed response and closes the connection: with status 200, the exact proof for the name and type in that request, its true length, the lifetime it may be cached for and permission for browsers to read it if the resolver's answers allow one, and an error status otherwise. Malformed requests get a client error, and neither other clients' requests nor how requests and answers are split over time change what a client gets.",
  ["schedules", "inputs", "fault_sequences"], "all concurrent sets of clients, requests (valid or not), segmentations, resolver behaviours and failures",
  "The HTTP server has no tests.",
  [H, Q], [("request parsing", H), ("response writing", H), ("one task per connection", H)], ["bytes each client receives"], NETH)
P("C14", "The HTTP server keeps serving whatever its clients and network do",
  "Clients which disappear, stall, send garbage or stop reading, errors accepting connections, and resolvers which fail or never answer only ever affect the requests concerned. Requests made alongside or afterwards are answered properly, connections of clients which are done or gone are closed, and the server neither stops nor spins.",
  ["schedules", "fault_sequences", "histories"], "all sequences of client and network faults, followed or accompanied by good requests",
  "The HTTP server has no tests.",
  [H], [("accept loop", H), ("one task per connection", H)], ["responses to requests made during and after faults"], NETH)
P("C15", "The advertised cache lifetime is the smallest TTL in the proof",
  "The TTL returned with a proof, by the builder and both clients, equals the smallest TTL among all records in the proof, for every TTL value. The HTTP server advertises exactly that to the client and to shared caches.",
  ["inputs", "schedules"], "all TTL values on all records of all responses, in any order, through each of the interfaces",
  "No offline test looks at a TTL.",
  [Q, H], [("running minimum", Q + " handle_response, process_response"), ("cache header", H)], ["returned TTL, Cache-Control header"], NETH)
P("C16", "A web page gets verified records or an error, always as valid JSON",
  "Looking up a domain through the WebAssembly interface, with or without a trailing dot and in any capitalisation, ends in well-formed JSON which either holds just an error, or exactly the records, validity window and cache lifetime which verification of the proof yields, with every name and content spelled so that it decodes to the original. Any record can be rendered so, and whatever the DNS-over-HTTPS server answers, in any order, and whatever happens to the proof, nothing unverified is shown and honest answers within the query limit lead to the published records.",
  ["inputs", "schedules", "fault_sequences"], "all domains, record contents and names needing escapes, response orders, response faults and manipulated proofs",
  "Neither the WebAssembly wrapper nor the JSON rendering has a test.",
  [W, R, Q, V], [("wrapper functions", W), ("JSON rendering", R + " json")], ["strings returned to JavaScript"], ANCH)
P("C17", "The page's lookup function always ends, with verified records or an error",
  "Calling lookup_doh with any domain, type and DNS-over-HTTPS endpoint ends exactly once, with well-formed JSON which holds either exactly the records, validity window and cache lifetime which verification of the proof built from the answers yields, or just an error. Each query a proof needs is asked exactly once, by a request to the endpoint which encodes it correctly. A query which fails, by an error, an HTTP status or a body which breaks off, ends the lookup with an error, an unsupported type or bad domain does so without any request, and lookups running at the same time, including while the module is still being loaded, do not affect each other.",
  ["inputs", "schedules", "fault_sequences"], "all domains, types and endpoints, any number of overlapping lookups, all interleavings of module loading, responses and bodies, all HTTP failures and answers",
  "No test runs the JavaScript at all, and lookups only interfere with each other if answers arrive in certain orders.",
  ["wasmpack/doh_lookup.js", W],
  [("query loop", "wasmpack/doh_lookup.js lookup_doh, send_next_query"), ("module functions", W)], ["requests made through fetch", "what the returned promise settles with"])
P("C18", "A proof holds exactly the records the resolver answered with",
  "A finished proof consists of every record from the answers of all accepted responses, plus the denial records and their signatures from their authority sections, each exactly as often as it was received, with name, type, TTL and contents unchanged, and of nothing else. This holds for every supported record, however it was compressed or capitalised, and whatever else the responses contained.",
  ["inputs", "schedules"], "all contents of all responses, in any order, layout and compression",
  "No offline test builds a proof from responses.",
  [Q, S, R], [("copying records", Q + " handle_response"), ("reading and writing records", S + " parse_wire_packet_rr, write_rr; " + R)], ["bytes of the finished proof"])

P("C23", "A zone that can be checked is never called unsupported",
  "Verification only says that records use unsupported algorithms, which users may take as permission to go on without DNSSEC, if some zone really is that way: its parent published, under an unbroken chain from the root, nothing but digests of keys or kinds which cannot be used. Nobody can make a zone with any usable key look that way by leaving out signatures, keys or digests, by adding ones nobody can check, or by altering records. And an honest proof through a zone which really cannot be checked is reported as such, not as invalid.",
  ["inputs", "histories", "fault_sequences"], "all zone trees with supported, unsupported and mixed algorithms and digests, and all omissions, additions and alterations of records delivered to the client",
  "The tests have no zone with an unsupported algorithm whose signatures they could recombine; the recorded proofs are of supported ones only.",
  [V, "src/crypto"],
  [("supported keys and digests of a delegation", V + " verify_dnskeys"), ("unsupported signatures of a record set", V + " verify_rrsig, verify_rr_stream")],
  ["the error verification returns"], ANCH)
P("C24", "A stream yields every record set whose chain it completes",
  "A stream of genuine records of any number of zones, in any order, is accepted with exactly those record sets for which it has the signature and all keys and delegations up to the root. Missing delegations, signatures or sets take away what depends on them and nothing else; sets, zones and delegations which belong to other answers neither add to nor take away from that. Only if a delegation in it leads to a zone whose signed keys are missing is all of the stream invalid, and if it leads to one whose keys are of unsupported kinds, it is reported as unsupported.",
  ["inputs", "schedules", "fault_sequences"], "all zone trees, all selections of genuine record sets from any number of answers, all omissions which leave the remaining sets intact, and all orders",
  "The tests verify one or two concatenated proofs of two unrelated zones; what a missing or additional part does to the rest is not tested.",
  [V], [("walk through the zones with pending delegations", V + " verify_rr_stream (pending_ds_sets)"), ("records of verified zones", V + " verify_rr_stream")],
  ["records returned by verification"], ANCH, [("pending_ds_sets", "delegations whose zones are still to be verified", V + " verify_rr_stream")])
P("C25", "Proofs survive key rollovers and caches",
  "While operators replace the keys of any zones on the way - zone signing, key signing and combined keys, algorithms, the root's keys with trust anchors for both - by the standard procedures, every one of whose steps lasts for longer than any cache keeps records, proofs can be built and verified at any time, and lead to the published records. This holds whichever sets a resolver still has from before the last step, and however many signatures, keys and digests that leaves without a counterpart.",
  ["histories", "schedules", "configurations"], "all zone trees, all standard rollovers of any of their zones, all points in time, and all mixtures of sets cached before and after the latest step",
  "The recorded proofs of the tests are snapshots of zones whose keys were at rest; rollovers take weeks and leave a resolver with mixtures which exist for hours.",
  [V, Q], [("choice among several keys, digests and signatures", V + " verify_dnskeys, verify_rrsig, verify_rr_stream"), ("walk up to the root", Q + " ProofBuilder")],
  ["the finished proof, the verified stream and resolve_name's result"], ANCH)
P("C26", "Neither capitalisation nor the TTLs received have any influence",
  "The verdict about a stream, the records accepted from it, its validity window and cache lifetime and what names in it resolve to are the same however the names in its records and the name looked up are capitalised, and whatever TTLs the records come with.",
  ["inputs"], "all streams, honest or manipulated, all ways of capitalising any of their names and all TTLs",
  "The tests verify recorded proofs as they were recorded, in lower case and with one set of TTLs.",
  [R, S, V], [("names", R + " Name"), ("canonical form", S + " write_name; " + V + " verify_rrsig"), ("cache lifetime", V + " verify_rr_stream")],
  ["the verified stream and resolve_name's result"], ANCH)
NA = [
 ("C19", "Names are validated, compared and split correctly",
  "A string is accepted as a domain name exactly if it ends in a dot, has labels of one to 63 printable characters and fits into 255 bytes on the wire. Names compare regardless of case, and their numbers of labels and suffixes are right.",
  ["inputs"], "all strings", "The tests only build valid names.", [R], [("Name", R)], ["results of conversions"],
  "A pure function of one string: no schedule, time, I/O or fault can influence it, so a simulated run is nothing but an input sample. (Names within messages and sessions are covered by C04, C06, C07, C09 and C16.)"),
 ("C20", "Base32 decoding and encoding are inverse and strict",
  "Decoding what was encoded gives the original bytes for every byte string, and anything not a valid encoding is refused.",
  ["inputs"], "all byte strings", "The tests check a few vectors.", [B], [("alphabet and padding", B)], ["results of the two functions"],
  "A pure, private function pair without any nondeterminism to control. (Its use in NSEC3 denials is covered by C02 and C04.)"),
 ("C21", "The built-in trust anchors are those IANA published",
  "The root keys trusted by default are exactly the delegation digests IANA publishes for the root zone.",
  ["configurations"], "the set of built-in anchors", "Recorded proofs only exercise whichever anchor signed them.", [V], [("root_hints", V)], ["root_hints"],
  "A constant: there is nothing to schedule or to inject a fault into, and simulation replaces these anchors by its own."),
 ("C22", "Key tags of all keys are computed as specified",
  "The tag of every key is the ones'-complement-like sum over its record data which the standard specifies.",
  ["inputs"], "all keys", "The tests compare two tags.", [R], [("key_tag", R)], ["key_tag"],
  "A pure function of one record. (That wrong tags break no chain is covered by C01 and C04, whose keys have all kinds of tags.)"),
]
for id, t, s, o, q, w, f, m, ob, _ in NA: P(id, t, s, o, q, w, f, m, ob)

NOTES = {
 "C01": "Seeded search over attacks on simulated zone trees; the judge compares every accepted set with what the simulated operators published, so an acceptance is never believed because the code under test says so. Trusts ring's primitives and that the simulated signer is right (C04 cross-checks it).",
 "C02": "As C01, with the search aimed at wildcards and denial records. Opt-out NSEC3 is exercised but not held to what it cannot prove.",
 "C03": "Seeded search over signature times, including wrapped 32-bit ones; upper bounds per needed link always, exact values where a single signature per set makes them determined.",
 "C04": "Completeness against the simulated world's own resolution; also catches panics. Steps around the two known findings, which are shown separately.",
 "C05": "Metamorphic: the same records permuted, or the same zones asked in another order. Restricted to genuine records, as among forgeries which of several errors is reported may depend on order.",
 "C06": "Reference model of alias graphs; where several aliases apply at once any of them may be followed. Termination is enforced by a CPU limit per run.",
 "C07": "Overflow checks and debug assertions are on; memory is counted by a stub allocator, the bound being 4 MiB plus 6000 bytes per byte of input, as a parsed NSEC record occupies 8 KiB.",
 "C08": "Counts operations through hooks next to the primitives. Bounds are linear in the stream; they say nothing about the cost of one operation.",
 "C09": "Lock-step comparison with a reference model of the walk to the root.",
 "C10": "Twin builders: one sees refused responses in between, the other does not; every observable is compared.",
 "C11": "The real client on a simulated connection; an independent model says what each delivered prefix must lead to. Timeouts are not simulated, as the client sets none.",
 "C12": "The real client futures under a simulated executor with seeded scheduling, delivery and cancellation.",
 "C13": "The real server loop on tokio's single-threaded scheduler with simulated sockets; responses are judged against the model of that client's own resolver conversation.",
 "C14": "As C13 with faults, followed by good requests once faults stop, which must all be answered.",
 "C15": "As C09, C11, C12 and C13 with arbitrary TTLs, looking at TTLs only.",
 "C16": "The real wrapper compiled natively; a strict JSON parser; records decoded from JSON are compared with native verification and with the simulated world.",
 "C17": "The real JavaScript in node, with the real wrapper compiled natively behind the functions wasm-bindgen would generate; the simulator decides when the module, each response and each body arrives or fails. Results are compared with a native proof builder fed the same answers and with the simulated world.",
 "C23": "As C01, with zones signed by supported and unsupported keys at once; whether a zone can be checked is judged from what the simulated operators published. A DS set with only digests of type 4 counts as uncheckable either way, as the crate knows but does not implement it.",
 "C24": "Exact equality with what the simulator knows to be linked to the root among genuine, current sets with a single signature each. Denial records are part of the proofs taken and are never left out here (C02 does that).",
 "C25": "Operators follow RFC 6781 and 7583 (and 5011 for the root) over simulated time; the resolver's cache holds each set from either the current or the previous step. Nobody misbehaves here.",
 "C26": "Metamorphic: the same records with the names in them respelt and other TTLs. Names in NSEC records are respelt as well, since the crate treats them without regard to case.",
 "C18": "Multiset comparison, by an independent parser, of the proof with what the simulated resolver sent.",
}
claimed = [p["id"] for p in props if p["id"] in NOTES]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Add simulation seams", "--grep=^Let simulation seams"], capture_output=True, text=True).stdout.split()
manifest = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "hooks": {"guard": "--cfg dnssec_sim (RUSTFLAGS)", "enable": "check.sh builds /verif/sim, whose crates depend on /repo by path, with RUSTFLAGS=\"--cfg dnssec_sim\"", "source_commits": hook},
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
   "technique": "deterministic simulation with fault injection, seeded search", "level": "exploration", "level_note": NOTES[i]} for i in claimed],
 "not_applicable": [{"property": n[0], "reason": n[9]} for n in NA],
 "notes": "See DESIGN.md. Replay a reported violation with ./check.sh --replay FILE; ./check.sh --selftest repeats seeds under different worker counts.",
}
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(ROOT + "/MANIFEST.json", "w") as f: f.write(json.dumps(manifest, indent=1) + "\n")
try:
    import jsonschema
    for p in props: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(props), "properties,", len(claimed), "claimed")
except ImportError: print("not validated")
