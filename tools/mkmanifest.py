#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of claimed properties below."""
import json, os
D=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(os.path.join(D,'properties.jsonl'))]
T={
"P01":"trace equivalence monitor: block rendering replayed against tick rendering of the same unit under random partitions",
"P02":"trace equivalence monitor: stream after use and reset against a fresh unit",
"P03":"trace equivalence monitor on clone pairs with interleaved use",
"P04":"call-log monitor (probe nodes inside containers) and rate-history equivalence monitor",
"P05":"online reference-semantics monitor for operator trees, cross-environment trace comparison",
"P06":"model-based runtime monitor: graph interpreter run beside Net under random edit histories",
"P07":"model-based runtime monitor of frontend/backend message histories, plus threaded stress with offline log checking",
"P08":"model-based runtime monitor: per-sample event interpreter beside the Sequencer",
"P09":"trace equivalence of frontend/backend against a plain Sequencer, threaded stress with offline log checking",
"P10":"online fade-weight monitor with unit identity decoding, threaded stress",
"P11":"counting global allocator armed around audio-thread calls",
"P12":"AddressSanitizer, MemorySanitizer (poisoned buffer lanes), ThreadSanitizer and Miri over the opcode catalog, random graphs and concurrent frontends/backends",
"P13":"measured impulse-response DFT against reported response",
"P14":"impulse/perturbation onset monitor against reported latency",
"P15":"probe-tree address monitor and settings equivalence monitor",
"P16":"threaded history checkers (exactly-once, order, latest value) and reference statistics",
"P17":"model-based runtime monitor (array of channels), file round trip with injected write failures",
"P18":"difference-equation reference monitors",
"P19":"phase-tracking reference monitors and spectral monitors",
"P20":"statistical and period monitors, structure/seed determinism checks",
"P21":"online envelope/ceiling monitors",
"P22":"reference DFT, latency and resampling monitors",
"P23":"contract assertions over dense and random domain sampling",
"P24":"reference transfer monitors for scalar and SIMD paths",
"P25":"shadow-memory model monitor of buffer accessors",
"P26":"finiteness/boundedness/decay monitor under hostile signals and parameter trajectories",
}
claimed=[p['id'] for p in props if os.path.exists(f"{D}/harness/src/bin/{p['id'].lower()}.rs")]
NA={}
checks=[{"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough",
 "evidence_file":f"evidence/{i}.json","technique":T[i],"level":"exploration",
 "level_note":"randomised and stress workloads on the real code, judged by an oracle at run time; holds on the executions observed, not proved for all"} for i in claimed]
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,
 "not_applicable":[{"property":p['id'],"reason":NA.get(p['id'],"monitor not built yet")} for p in props if p['id'] not in claimed]}
json.dump(m,open(f"{D}/MANIFEST.json","w"),indent=1); print(len(claimed),"claimed")
