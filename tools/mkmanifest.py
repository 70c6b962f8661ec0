import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
STATEFUL = "stateful property-based testing against a reference model, with shrinking"
DEC = {
 'C01': ("property-based testing of generated requests and segmentations (round trip)", "in-memory devices"),
 'C02': ("mutation fuzzing against an independent grammar reader", "in-memory devices"),
 'C03': (STATEFUL, "in-memory devices"),
 'C04': ("property-based testing of response call sequences against a model and an independent response reader", "in-memory devices"),
 'C05': (STATEFUL, "in-memory devices with held-back output"),
 'C06': ("stateful fuzzing of call orders, reentrancy and disconnects against invariants", "in-memory devices"),
 'C07': ("property-based differential testing against reference decoders and a list model", "in-memory devices"),
 'C08': (STATEFUL + ", real sockets with a paced reader", "loopback TCP sockets with small buffers, and in-memory devices"),
 'C09': (STATEFUL + " over generated files", "in-memory devices and a scratch directory"),
 'C10': ("property-based testing of generated paths over generated directory trees against a real-path oracle", "a scratch directory"),
 'C11': ("property-based differential testing against a reference router", "in-memory devices"),
 'C12': ("property-based testing of generated handler trees against a reference evaluator", "in-memory devices"),
 'C13': (STATEFUL + " over interleaved connections", "in-memory devices and loopback TCP"),
 'C14': (STATEFUL + ", scripted origins on loopback TCP", "loopback TCP"),
 'C15': (STATEFUL + ", injected origin and client failures", "loopback TCP"),
 'C16': ("property-based testing and fuzzing of generated responses, mutations and segmentations (metamorphic and differential)", "none beyond the reference reader"),
 'C17': ("property-based testing of generated messages (round trip through an independent reader)", "loopback TCP for the client part"),
 'C18': (STATEFUL + ", scripted servers on loopback TCP", "loopback TCP"),
 'C19': (STATEFUL + ", scripted servers sending generated gzip streams", "loopback TCP; zlib as reference compressor"),
 'C20': (STATEFUL + ", scripted servers on loopback TCP", "loopback TCP"),
 'C21': (STATEFUL + " of many concurrent clients over TCP, local sockets and TLS", "loopback TCP, local sockets, TLS with a test certificate"),
 'C22': ("property-based differential testing against reference definitions", "none beyond the reference definitions"),
 'C23': (STATEFUL + " over generated scripts and requests", "in-memory devices and scratch files"),
 'C24': ("end-to-end property-based testing (round trip client to server)", "loopback TCP"),
}
import re
run = open(os.path.join(V, 'run.sh')).read()
groups = {}
for ids, g in re.findall(r'^\t((?:C\d\d\|?)+)\) g=(\w+);;', run, re.M):
    for i in ids.split('|'): groups[i] = g
checks, na, gs = [], [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'check_%s.cpp' % groups[i])):
        tech, trust = DEC[i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s" % i, "thorough_cmd": "./run.sh %s --tier thorough" % i, "technique": tech, "level": "exploration",
            "level_note": "Evidence from generated search, not proof: every case is a function of VERIF_SEED, runs the library built with AddressSanitizer from /repo's working tree, and is judged by an oracle that shares no code with it; failures are replayed three times and shrunk. Trusts Qt, the compiler and the harness; environment: %s." % trust})
        if groups[i] not in gs: gs.append(groups[i])
    else: na.append({"property": i, "reason": "Its check is not built yet."})
m = {"version": 1, "setup_cmd": "./build.sh " + " ".join(gs), "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: checks compile pillowcore's sources as they are into harness binaries under /verif/build (ignored by git). KNOWN_FINDINGS.txt lists repaired defects and open findings."}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
