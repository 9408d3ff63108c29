"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "online reference-model monitor over pairs of samples built by many routes",
 "C02": "online reference-model monitor of construction histories (accept/refuse oracle)",
 "C03": "online reference-model monitor of join histories",
 "C04": "snapshot-pool monitor: every live object re-observed after every later event",
 "C05": "twin-execution monitor: history with and without the refused call",
 "C06": "conservation monitor over multiset histories (exact counting model)",
 "C07": "offline checker of the generated outcome set against an independent enumeration",
 "C08": "online reference-model monitor of conditioning",
 "C09": "online monitor with exact-fraction oracle",
 "C10": "online conservation monitor of aggregated counts",
 "C11": "online monitor with exact-fraction oracle over generated evidence and filters",
 "C12": "conservation/partition monitor over generated sample sets",
 "C13": "online monitor against an independent exact product",
 "C14": "online reference-model monitor of partial joins",
 "C15": "end-to-end monitor against exact inference from the tables",
 "C16": "online reference-model monitor of graph queries",
 "C17": "refusal monitor over cross-network histories",
 "C18": "differential monitor of result digests across interpreter processes, hash seeds and orders",
 "C19": "monitor on the renderer boundary and the written page",
 "C20": "round-trip and listing monitor",
 "C21": "lock-step monitor of games against an independent rules model",
 "C22": "lock-step monitor of moves, refusals and timers against an independent rules model",
 "C23": "snapshot-pool monitor over trees of game states",
 "C24": "event-log trace checker of the game loop under fault injection",
 "C25": "online monitor of board parsing, grid round trips and working directory",
 "C26": "lock-step monitor against reference containers and scripted random draws",
 "C27": "online monitor of distributions, draws and key handling",
 "C28": "monitor of a recording canvas against the shown states",
 "C30": "differential monitor of two encodings of random tables, with accept/refuse oracle for the comparisons",
 "C31": "monitor of parsed command lines and of series of games seen by scripted agents, against independent expectations",
 "C29": "online monitor of pairwise equality, hashing and refusals against plain descriptions",
}
checks = []
for k in sorted(T):
    if not os.path.exists(os.path.join(V, "prn", "props", k.lower() + ".py")):
        continue
    checks.append({
        "property": k,
        "quick_cmd": f"/opt/venv/bin/python checks/run.py {k} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python checks/run.py {k} --tier thorough",
        "evidence_file": f"evidence/{k}.json",
        "technique": "runtime monitoring: " + T[k],
        "level": "exploration",
        "level_note": "Held on the executions observed (counts, event kinds and executed repository lines are in the evidence file); says nothing "
                      "about inputs the generators cannot produce. Trusts the reference model in /verif/prn, CPython and the installed libraries. "
                      "A run whose monitors observed too little exits 2."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: monitors attach at the public boundary. Commits in /repo are repairs only (known_findings.txt)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
