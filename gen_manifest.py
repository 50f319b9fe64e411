#!/usr/bin/env python3
# Source of MANIFEST.json: run it to regenerate the file.
import json
T="deterministic simulation with fault injection"
W="seeded search, not exhaustive: real tracker code, instrumented, under a simulated scheduler, clock, network, disk and postgres; evidence/ID.json says what one run covered"
N={
"C01":("reference membership model over UDP+HTTP histories","Datagram loss/duplication/reordering/delay, stalls, restarts; membership compared at quiescence and per reply interval."),
"C02":("interval-count oracle per reply; swarms up to 66,000 peers","Counts checked against every value possible during the request, at quiescence exactly."),
"C03":("porcupine linearizability over simulated callers of the database","Concurrent Save/Drop/Hashes/PeerList/PeerListBytes/expire directly on gomap.Memory, per swarm."),
"C04":("age model against trim ticks on a simulated clock","Clock steps, racing trims, restarts from backup."),
"C05":("peer-list oracle per reply","Genuineness against intervals; completeness at quiescence."),
"C06":("reply bijection and BEP 15 layout oracle","All actions incl. malformed; loss, duplication, reordering, concurrent requests."),
"C07":("connection-id model with spoofed and stale ids","Restarts, trims, reordering and spoofed sources."),
"C08":("connection-age model on a simulated clock","Trim ticks, reconnects, restarts."),
"C09":("stored address against the network source","Both app-engine (heroku tag) and ordinary builds."),
"C10":("reply compared with a parse of the bytes of the connection alone","Arbitrary fragmentation, truncation, timeouts, slow clients, worker reuse."),
"C11":("crash/fatal detection and progress after faults stop","Random and structured garbage, socket read/write/accept errors."),
"C12":("worker occupancy and cut-off bounds on a simulated clock","Slow, silent, half-closing, vanishing and non-reading clients."),
"C13":("membership model over stop/start generations","Signals under traffic, around periodic backups, slow disk, big swarms."),
"C14":("durable-image model with crash points in the disk layer","Kill and power loss at every kind of disk operation, torn/short writes, full disk, errors."),
"C15":("image-consistency oracle over restored backups","Overlapping periodic, signalled and final saves under traffic with adversarial scheduling."),
"C16":("stop/save promptness and effect","Signal bursts at any moment, slow and failing disk, load."),
"C17":("connection-id model over restarts with damaged files","Crash points, torn and missing files, power loss."),
"C18":("published gauges against the model at quiescence","Restarts, expiry, address changes, up to 66,000 peers."),
"C19":("sums of published intervals against requests sent","Traffic at interval boundaries."),
"C20":("tick schedule oracle on a simulated, stepping clock","utils.RunOn directly and the tracker's jobs; overruns, stalls, clock steps."),
"C21":("command outcome oracle over simulated processes","Tracker hangs, crashes, ignores signals, lost packets, disk faults in the CLI."),
"C22":("membership model over a simulated postgres","Failing/slow/lost statements, lost commits, outage, connection limits; the simulated postgres is a stub of lib/pq and database/sql."),
"C23":("size and interval bounds per reply","numwant extremes, limits, large swarms, both protocols."),
"C24":("HTTP reply completeness oracle","Fragmentation, concurrency, slow readers, write errors."),
"C25":("configuration file after interrupted first starts","Kill, power loss and disk errors at each disk operation of the installation."),
"C26":("membership model over mixed kills, stops and starts","Crash points, power loss, periodic backups, litter."),
"C29":("observed behaviour against an independent reading of environment and files","Random settings in three places, changed between and during lives, started by command or directly, killed, saved, stopped."),
"C31":("resources and gauges at quiescence against those before load","Misbehaving clients, socket errors, failing saves and database statements, several rounds."),
}
checks=[]
for i,(m,n) in N.items():
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i}",technique=f"{T}: {m}",level="exploration",level_note=f"{n} {W}."))
NA={
"C27":"Encoders are pure functions of their argument: no schedule, clock, I/O, fault or second party for a simulation to vary; only input generation would decide it, which is another technique. (Encodings of real replies are decoded by an independent decoder in C24.)",
"C28":"Codecs are pure functions of their bytes: nothing for a simulator to vary. (The layout of every reply sent in a simulation is checked in C06.)",
"C30":"The decoder is a pure function of the query bytes. (Escaped queries arriving in fragments over simulated TCP are compared in C10.)",
}
json.dump(dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()]),open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
jsonschema.validate(json.load(open("/verif/MANIFEST.json")),json.load(open("/root/.vp/MANIFEST.schema.json")))
