#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("reference-model monitor over random operation histories, ASan/UBSan build", "Random histories over all field types compared with an executable model after every operation; bounded by case count."),
 "C02": ("sanitizer run with capacity and fault-argument histories against a model oracle", "Histories at tight capacities; buffers end at an ASan red zone; unchanged-on-failure compared by full traversal."),
 "C03": ("oracle over recorded conversions against C's own conversions, sanitizer build", "Random values for all type pairs; values whose conversion is undefined in C are not generated."),
 "C04": ("reference-model monitor over random set operations, sanitizer build", "Random buffer pairs and lists against occurrence-level definitions."),
 "C06": ("differential oracle: independent recognizer and evaluator over random and damaged expressions, sanitizer build", "Random expressions to depth 6 (chains to 250 terms), damaged texts, hostile nesting; values whose computation is undefined in C are not compared."),
 "C08": ("model-based monitor over random histories of typed buffer calls, sanitizer build", "Random histories over three buffers, damaged import data; misuse calls with documented errors."),
 "C05": ("round-trip and damaged-file monitor, sanitizer build", "Random buffers, truncations and damage; doubles restricted to what %f prints exactly."),
 "C07": ("model oracle over random field tables with concurrent first use (threads, ASan and TSan builds), generated headers compiled and compared", "Random valid tables and damaged ones; thread schedules are those the stress run meets."),
 "C09": ("exactly-once, order and content checker over recorded sends and receives of several processes, fault injection, sanitizer build", "Random sizes around the limits, full queues, failing system calls; interleavings are those the stress run meets."),
 "C10": ("model of the tables compared after every call of one process; recorded lookups of several processes checked against what was advertised at that time", "Random histories at small capacities; interleavings are those the stress run meets."),
 "C11": ("exactly-once and content checker over recorded requests, executions and replies of running domains (ASan/UBSan build, injected delays)", "Random histories of clients against single and multithreaded servers; interleavings are those the stress run with injected delays meets."),
 "C12": ("oracle over the results of calls whose outcome is planned in the request, running domains, ASan/UBSan build, injected delays", "Random sequences of outcomes, refused calls, advertising and servers ending."),
 "C13": ("per-client model of outstanding descriptors and deadlines checked on every call, exactly-once checker over the logs, running domains, sanitizer build, injected delays", "Random histories with cancels, polls, time-outs, full queues and exhausted descriptors; a time-out counts as late after the block time plus 6 s."),
 "C14": ("offline checker (two-phase rules, outcome against truth) over the calls recorded by resource manager stand-ins that fail as told, in running domains with delays and kills; ASan/UBSan build", "Random transactions over 1 to 4 groups; every XA call fails with random codes, services are killed; originators and coordinators survive."),
 "C15": ("model of the TX states run in step with random walks of clients and services in running domains; uniqueness checker over the recorded transaction ids; ASan/UBSan build", "Random walks, nested and joined transactions, full tables; the schedules are those the stress run meets."),
 "C16": ("model of the running domain (processes, queues, offers) compared with processes, IPC objects and executed calls after kills at random moments, restarts and stops; ASan/UBSan build", "Random histories of starts, kills, stops; removal of the dead counts as missing after 10 s."),
 "C17": ("differential oracle: independent reader of random configurations against tmloadcf, tmunloadcf and the loaded tables, sanitizer build", "Random valid texts and damaged ones; file state checked after each refusal."),
 "C18": ("answers to administrative queries compared with a model of what was configured, started, stopped, killed and advertised; running domains, ASan/UBSan build", "Random configurations and histories; a killed server may be listed as before for up to 10 s."),
 "C19": ("ThreadSanitizer over library and harness with injected delays, plus each thread's own model: model-checked workloads of one process run by 2-8 threads, and domains whose clients and servers run several threads", "Schedules are those that occurred; happens-before through the library's semaphores is told to the detector by a stand-in for semop."),
 "C20": ("offline checker over recorded log calls of many processes and threads with fault injection", "Lines matched one by one per writer; unwritable logs, long and odd messages."),
 "C21": ("generated sources compiled and executed, compared with the declarations; recorded compiler calls", "Random views and service lists; damaged views."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(d, "properties.jsonl"))]
try:
    from manifest_extra import T as T2
    T.update(T2)
except ImportError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(d, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check " + i + " thorough",
            evidence_file="evidence/%s.json" % i, technique=T[i][0],
            level=T[i][2] if len(T[i]) > 2 else "exploration", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet: the machinery for this property is being built")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Every check compiles what it needs from /repo's working tree (own build, sanitizers on) and runs workloads under monitors; see DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
