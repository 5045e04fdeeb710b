import json
L={
"C01":"per-key linearizability checking of recorded histories under a controlled scheduler and real parallelism",
"C02":"differential monitoring against a sequential model",
"C03":"version-chain (exactly-once supersession) checking of recorded histories",
"C04":"canaries and poisoned frees behind held references, AddressSanitizer",
"C05":"drop registry and allocation ledger",
"C06":"vector-clock happens-before monitor on real orderings, Miri with many schedules",
"C07":"interval oracle over iteration yields and write histories",
"C08":"offline checking of sweeps against recorded histories",
"C09":"len compared with the contents at every quiescent point",
"C10":"recency and linearizability monitoring under constant resizing",
"C11":"deadlock and step-bound livelock detection in a controlled scheduler",
"C12":"misuse matrix with before/after state comparison",
"C13":"panic injection with every behavioural monitor attached",
"C14":"comparison with std collections during resizes and concurrent writes",
"C15":"table allocations observed through hooks and the allocator",
"C16":"live-memory accounting at quiescent points under churn",
"C17":"per-operation work accounting through hash calls",
"C18":"linearizability and sequential-model monitoring of sets",
"C19":"linearizability, lifetime and drop monitoring of one owned pin shared by threads",
"C20":"freezing all other threads at random points and counting the lookup's steps",
"C22":"differential and conservation monitoring over many key and value types, with an exactly aligning allocator",
"C23":"drop registry, canaries and allocation ledger with keys whose hash and equality lie at random",
}
m={"version":1,"setup_cmd":"./setup.sh",
"hooks":{"guard":"papaya_verif","enable":"RUSTFLAGS='--cfg papaya_verif'","source_commits":["3033b08","1d496b8"]},
"checks":[{"property":p,"quick_cmd":f"./check {p}","thorough_cmd":f"./check {p}","evidence_file":f"evidence/{p}.json","technique":t,"level":"exploration",
"level_note":"Held on the executions explored, which the evidence file counts; trusts the harness, its hooks and the sequential model."} for p,t in L.items()],
"not_applicable":[{"property":"C21","reason":"Whether a type is Send or Sync is decided by the compiler; no execution can refute it, so a runtime monitor has nothing to observe."}]}
json.dump(m,open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/MANIFEST.json','w'),indent=1)
