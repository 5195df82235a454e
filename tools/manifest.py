"""Writes MANIFEST.json from properties.jsonl and the list of checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
T = {
 "C01": "property-based testing: generated calls vs f64 reference with running error bounds",
 "C02": "property-based testing: histories of in-place operations vs reference model",
 "C03": "property-based testing: generated calls vs f64 reference, extreme magnitudes",
 "C04": "property-based testing: generated calls vs textbook reference, algebraic laws",
 "C05": "property-based testing: per-index reference bit for bit, round trips",
 "C06": "property-based testing: generated tensors vs line-by-line reference",
 "C07": "property-based testing: vector-Jacobian products vs reverse-mode f64 reference",
 "C08": "property-based testing: vector-Jacobian products vs reverse-mode f64 reference",
 "C09": "property-based testing: vector-Jacobian products vs reverse-mode f64 reference",
 "C10": "property-based testing: random graphs vs reverse-mode f64 reference",
 "C11": "stateful property-based testing: histories of passes vs reference model of gradients",
 "C12": "differential property-based testing: lazy graph vs eager evaluation, bit for bit",
 "C13": "property-based testing: random graphs of recording operators, invariants over the event log",
 "C14": "metamorphic property-based testing: minibatch vs per-sample evaluation",
 "C15": "stateful property-based testing: update histories vs reference model",
 "C16": "stateful property-based testing: update histories vs reference model, metamorphic relations",
 "C17": "property-based testing: shapes vs exact integer model",
 "C18": "property-based testing: acceptance of generated calls vs documented rule",
 "C19": "stateful property-based testing: allocation histories on a recording backend, invariants over the history",
 "C20": "metamorphic property-based testing: dirty memory, guard zones, repetition",
 "C21": "property-based testing of generated multi-threaded schedules vs single-threaded run",
 "C22": "property-based testing: serialisation round trips",
 "C23": "stateful property-based testing: interrupted vs uninterrupted histories",
 "C24": "property-based testing over generated model structures vs reference walk",
 "C25": "property-based testing with statistical oracles",
 "C26": "property-based testing: invariants of dropout masks, statistics, gradients",
 "C27": "property-based testing: generated calls vs f64 reference, forward and backward",
 "C28": "stateful property-based testing: registration histories vs reference table; call logs",
 "C29": "stateful property-based testing: injected refused calls, invariants over the history",
 "C30": "property-based testing of large generated graphs vs closed-form reference",
 "C31": "stateful model-based property testing of tensor lifecycles",
}
NOTE = {
 "default": "Seeded generated-input search (proptest) against an independent oracle; shrunk replay files; evidence counts cases, distinct non-trivial cases and shows samples.",
}
checks = []
na = []
for i in ids:
    if os.path.exists(f"{root}/harness/src/bin/{i.lower()}.rs"):
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": T[i],
            "level": "exploration",
            "level_note": NOTE.get(i, NOTE["default"]),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": na}, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
