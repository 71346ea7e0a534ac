#!/usr/bin/env python3
"""Writes ../MANIFEST.json from properties.jsonl and the harness's list of claimed properties."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
src = open(os.path.join(root, "harness/src/props/mod.rs")).read()
claimed = re.findall(r'"(C\d\d)"', re.search(r"PROPS: &\[&str\] = &\[(.*?)\];", src, re.S).group(1))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": ("generated messages, write/parse round trip through every writer", "every field of the message is generated; the oracle is the list of parts the message was built from"),
 "C02": ("fuzzing of the parsers with grammar-near and arbitrary bytes, rewrite metamorphic relation", "hangs and crashes are caught per case by a supervising process"),
 "C03": ("differential test against an independent reference parser", "lines whose meaning the grammar leaves open (tab as separator, malformed tag keys) are skipped and counted"),
 "C04": ("generated strings and operation sequences against an independent rule per type", "all nine types, all constructors, builders, splitters and transforms"),
 "C05": ("generated operation sequences, UTF-8 claims compared with std's decoder", "any string reachable through the sequence is checked, not only the last one"),
 "C06": ("model-based operation sequences on strings against Vec<u8>", "model is a plain byte vector per string"),
 "C07": ("generated secrets pushed through every formatting and conversion route, output searched for them", "captures Display, Debug, log events and error texts"),
 "C08": ("generated secret-buffer operation sequences under an allocator that inspects freed memory", "exact: every block freed while watching is searched for the canary"),
 "C09": ("generated operation sequences executed natively, under AddressSanitizer and under Miri", "bounded by the number of cases Miri can interpret; schedules are Miri's own plus the OS's"),
 "C10": ("generated streams cut at every kind of boundary, with faults injected, against a reference framer", "all readers (blocking, borrowing, async, codec) on the same stream"),
 "C11": ("model-based operation sequences against BTreeMap", "Tags and NameMap, including forgotten guards"),
 "C12": ("model-based operation sequences against a Vec and a size formula", "sizes compared with the bytes actually written"),
 "C13": ("model-based operation sequences on the queue against a reference scheduler", "virtual time is injected through the queue's own parameters"),
 "C14": ("stateful sequences of handlers and messages over an in-memory connection against a reference dispatcher", "handlers are scripted by the generator"),
 "C15": ("scripted-server model: generated options and server behaviours, transcript checked against a reference", "the server side is generated step by step"),
 "C16": ("scripted-server model of SASL exchanges plus base64 round trips", "chunk boundaries are generated around the protocol's 400 bytes"),
 "C17": ("generated interleavings of sender and receiver operations, real threads, history checked", "schedules are those of the OS plus injected pauses"),
 "C18": ("generated generator chains against a reference enumeration", "randomised suffixes are checked for membership and length"),
 "C19": ("differential test of mode and ISUPPORT parsing against reference parsers", "value grammar generated per token"),
 "C20": ("scripted-server model of capability negotiation", "caps, values and replies generated"),
 "C21": ("round trips and differential tests of typed views and CTCP", "every typed message kind in the library"),
 "C22": ("stateful sequences against a reference responder", "handlers driven through the real client"),
 "C23": ("serialise/deserialise round trips through JSON and a binary-capable format", "every serialisable type; also hostile documents"),
 "C24": ("generated states against a reference length computation", "sizes compared with what a server would prepend"),
 "C25": ("fault injection over generated schedules of an in-memory and a real socket connection", "faults: timeouts, short reads and writes, errors, end of stream at any byte"),
 "C26": ("generated trust settings, certificate files and servers on the loopback interface, against a table of what must be accepted", "certificates are fixed files of the harness; faults of the server (wrong key, forbidden signature, no TLS) are generated"),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + tech,
                       "level": "fault_enumeration" if i in ("C10", "C25") else "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use only the public interface", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
