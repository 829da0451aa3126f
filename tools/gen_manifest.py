"""Writes MANIFEST.json: one check per property whose module is registered in harness/src/main.rs."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
main = open(f"{root}/harness/src/main.rs").read()
have = set(re.findall(r'"(C\d\d)" =>', main)) | ({"C18"} if "C18)" in open(f"{root}/check.sh").read() else set())
T = {
 "C01": ("runtime monitoring: recorded dispatch traces against a reference matcher", "random route tables and requests, in-process and served; every case is judged by an independent segment matcher"),
 "C02": ("runtime monitoring: differential traces over registration orders", "random permutations of random tables; outcomes compared with each other and with the matcher"),
 "C03": ("runtime monitoring: registration outcomes against a reference conflict rule", "random registration sequences; refusals judged one by one, earlier routes probed after each refusal"),
 "C04": ("runtime monitoring: recorded parameters against raw request segments", "random patterns, raw segments and 14 target types"),
 "C05": ("runtime monitoring: recorded middleware traces against a reference chain", "random middleware placements with nesting, in-process and served"),
 "C06": ("runtime monitoring: event traces against a reference interpreter", "random middleware programs of up to 150 steps, in-process and served"),
 "C07": ("runtime monitoring: differential traces of mounted and flat registrations", "random nested mounts against the same routes registered directly"),
 "C08": ("runtime monitoring: bytes on the wire against the built response", "random responses over HTTP/1.0, 1.1 and 2 read by a byte-level client"),
 "C09": ("runtime monitoring: builder results against a left-to-right reference model", "random builder call sequences over all responder types"),
 "C10": ("runtime monitoring: decoded values against an independent decoder", "random pairs and encodings for 19 typed targets, in-process and served"),
 "C11": ("runtime monitoring under delivery faults: decoded values against the whole body", "random splits, delays, framings and truncations over HTTP/1.1, HTTP/2 and in-process streams"),
 "C12": ("runtime monitoring: panic, liveness and response-validity monitors under hostile input", "mutated and random bytes on many connections with canary clients in between"),
 "C13": ("runtime monitoring: token flow checked per request under concurrent load", "every value a request sees or gets carries that request's token; interleavings by random delays on a multi-threaded server"),
 "C14": ("runtime monitoring: state observations and conservation of shared updates", "concurrent requests record the state they see; counters must add up"),
 "C15": ("runtime monitoring: served bytes against the file system", "random directory trees, mounts and requests"),
 "C16": ("runtime monitoring: canary contents outside the served directory", "random traversal spellings; answers for existing and absent outside files must agree"),
 "C17": ("runtime monitoring: exactly-once and order checker over recorded event logs", "pipelined, split, abandoned and concurrent requests with random handler delays"),
 "C18": ("sanitizers: ThreadSanitizer, AddressSanitizer and Miri over served and in-process workloads", "instrumented builds of the library, its dependencies and the standard library under the concurrent workloads"),
 "C19": ("runtime monitoring under injected failures", "errors, panics and never-ending futures injected beside ordinary requests whose answers are checked"),
 "C20": ("runtime monitoring: contexts recorded by handlers and middleware against the bytes sent", "random requests over HTTP/1.0, 1.1, 2 and in-process"),
 "C21": ("runtime monitoring: differential traces with and without the logger", "random applications and requests served twice"),
 "C22": ("runtime monitoring: decoder results against a per-type reference", "random maps of lists for 19 typed targets"),
 "C23": ("runtime monitoring: drop counters, descriptor and live-memory accounting", "state copies, context data, bodies and connections counted before, during and after traffic with faults"),
 "C24": ("runtime monitoring: progress of other requests while some are held at gates", "held handlers, middleware, bodies, files; unrelated requests must complete while they wait"),
 "C25": ("runtime monitoring: results of context operations and snapshots against a model carried along the chain", "random operation programs in middleware and handlers, in process and served"),
 "C26": ("runtime monitoring: each router of a history against its own model, applications side by side and in turn", "random histories of cloning, changing, mounting and dropping routers; groups of applications with everything in common"),
 "C27": ("runtime monitoring: lock-step of both ends of unfinished bodies, bytes taken while nobody reads", "each piece is made only after all earlier ones have arrived; 128 MB offered to a side that does not read"),
 "C28": ("runtime monitoring: CPU time at doubling sizes and before and after ageing", "27 families of calls and 17 of exchanges; growth beyond proportion, exceeding a factor of 10 after repetition, is a violation"),
 "C29": ("runtime monitoring under faults: socket table, competing listeners, runtime kinds, descriptor exhaustion", "histories of starting, competing and stopping on a port in seven kinds of runtime; starved processes"),
}
checks = []
for p in sorted(have):
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in sorted(T) if p not in have]}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
