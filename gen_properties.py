#!/usr/bin/env python3
# Source of properties.jsonl: run it to regenerate the file.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Acknowledged announces and stops are never lost, over UDP or HTTP",
 "After any history of concurrent announces and stops, the members of every swarm are exactly the peers whose last processed event was an announce, each with the address, port and completeness of that event, whichever protocol carried it. No announce that was answered is lost, none that was stopped survives, and no peer appears that never announced.",
 ["schedules","histories","fault_sequences"],"every interleaving of the worker threads of both servers (and of the trim pass), every loss, duplication and reordering of datagrams, every history of announces and stops over shared swarms",
 "Tests issue one request at a time with one worker; two requests never overlap on a swarm, so the windows between lookup, creation, update and removal are never entered.",
 ["tracker/storage/map/peer.go","tracker/storage/map/memory.go","tracker/udp/announce.go","tracker/http/announce.go"],
 [("per-swarm and database locks","tracker/storage/map/peer.go Save/Drop"),("trim removes only empty swarms","tracker/storage/map/memory.go trim")],
 [("swarm map","info hash -> peers of that swarm","tracker/storage/map/memory.go"),("peer entry","completeness, address, port, last seen","tracker/storage/types.go")],
 ["UDP and HTTP announce/scrape replies once traffic has drained"])
p("C02","Seeder and leecher counts always equal the swarm's membership",
 "In every announce and scrape reply the seeder and leecher counts equal the number of complete and incomplete members the swarm can have had at some instant while the request was being served, for swarms of any size; they never go negative, wrap around or drift. Once traffic has drained they equal the membership exactly.",
 ["schedules","histories","inputs"],"every interleaving of announces, completions, un-completions, stops, expiries and restarts on one swarm, every swarm size including beyond 65535 peers",
 "Tests look at counts of one or two peers set up sequentially; drift needs two overlapping updates of one peer, and wrap-around needs sizes no test builds.",
 ["tracker/storage/map/peer.go","tracker/storage/map/hash.go","tracker/storage/map/memory.go","tracker/storage/map/encode_binary.go"],
 [("counter updates under the swarm lock","tracker/storage/map/peer.go"),("recount on load","tracker/storage/map/encode_binary.go decodeBinary")],
 [("complete/incomplete counters","per swarm","tracker/storage/map/memory.go PeerMap")],
 ["UDP scrape, HTTP scrape, announce replies"])
p("C03","The peer database is linearizable under concurrent callers",
 "Concurrent calls on the peer database (save, drop, counts, peer list, compact peer list) on a swarm have results explainable by executing them one at a time in an order consistent with real time. In particular a listing that starts after a save returned shows that peer with exactly the saved address and port, never a mixture of two saves.",
 ["schedules","histories"],"every interleaving of several callers at statement granularity, every short history of operations on a few peers of a few swarms",
 "The package's tests are single threaded; the parallel benchmarks check nothing.",
 ["tracker/storage/database.go","tracker/storage/map/peer.go","tracker/storage/map/hash.go"],
 [("database and swarm RW locks","tracker/storage/map")],
 [("swarm map","info hash -> peers","tracker/storage/map/memory.go")],
 ["results of the storage.Database interface"])
p("C04","Peers expire when silent for too long and only then",
 "A peer whose last announce is older than the configured expiry when a trim pass runs is gone after that pass, from counts and lists alike; a peer that announced within the expiry is never removed by a pass, even when its announce races the pass or its swarm had just become empty, and even when it was restored from a backup.",
 ["schedules","histories","fault_sequences"],"every placement of announces relative to trim passes, every interleaving of a pass with announces and stops, every expiry and trim setting, stalls of the trim task",
 "The only trim test removes everything from a database nobody else uses, and looks at nothing afterwards.",
 ["tracker/storage/map/memory.go","tracker/storage/map/peer.go","tracker/utils/runon.go"],
 [("age test against expiry","tracker/storage/map/memory.go trim"),("periodic task","tracker/utils/runon.go")],
 [("last seen","time of the peer's last announce","tracker/storage/types.go")],
 ["announce and scrape replies before and after trim ticks"])
p("C05","Peer lists name only genuine, current members of the requested swarm",
 "Every peer listed in a reply is a member of the requested swarm at some instant while the request was served, listed once, under an address and port it announced together; a reply never contains padding, entries of another swarm, or bytes left from an earlier reply. When the swarm has no more members of the requested address family than were asked for, and nothing else is in flight, all of them are listed (the requester itself included), and an IPv4 client over UDP gets IPv4 peers and an IPv6 client IPv6 peers.",
 ["schedules","histories","inputs"],"every interleaving of requests that share reply buffers, every mix of address families, swarm sizes around the limits, requests for zero peers and for unknown swarms",
 "Tests use fresh buffers and swarms of at most two peers; recycled buffers, empty swarms with numwant 0 and concurrent removals are never combined.",
 ["tracker/storage/map/hash.go","pools/pools.go","tracker/udp/announce.go","tracker/http/announce.go"],
 [("recycled reply buffers","pools/pools.go"),("list building under the swarm lock","tracker/storage/map/hash.go")],
 [("peer list buffers","recycled byte slices","pools/pools.go")],
 ["peers / peers6 of announce replies"])
p("C06","Every UDP request is answered once, to its sender, with its own result",
 "Each well-formed UDP request that is received gets exactly one reply, sent to the address it came from, carrying its transaction id and the reply kind of its action (an error for an invalid one), laid out as BEP 15 demands; scrape results come in the order of the requested hashes. Concurrent requests never exchange or mix replies, and datagrams too short to be a request get none.",
 ["schedules","inputs","fault_sequences"],"every interleaving of UDP workers sharing buffers, every request kind and size, duplicated, reordered and truncated datagrams, failing sends",
 "Tests talk to a single worker with one request outstanding, and never send a scrape.",
 ["tracker/udp/udptracker.go","tracker/udp/announce.go","tracker/udp/scrape.go","tracker/udp/connect.go","tracker/udp/error.go","tracker/udp/protocol/scrape.go"],
 [("dispatch on action","tracker/udp/udptracker.go process"),("reply encoding","tracker/udp/protocol")],
 [("request buffers","recycled 1496 byte slices","tracker/udp/udptracker.go Serve")],
 ["datagrams leaving the UDP socket"])
p("C07","UDP announces and scrapes need a connection id issued to that address",
 "With validation on, an announce or scrape takes effect and reveals data only if it carries the connection id most recently issued to the very address and port it comes from; any other is answered with an error, changes nothing and leaks no peers. With validation on, no interleaving of connects, expiries, restarts and reordered or spoofed packets gives another result.",
 ["schedules","histories","fault_sequences"],"every interleaving of connects, announces, trims and restarts over several addresses, guessed, stolen, stale and spoofed ids",
 "One test sends one wrong id from one address (and is broken); stolen ids, re-connects and concurrent use are not tried.",
 ["tracker/udp/conndb.go","tracker/udp/udptracker.go","tracker/udp/connect.go"],
 [("connection database check","tracker/udp/conndb.go check"),("validation before dispatch","tracker/udp/udptracker.go process")],
 [("connection map","address:port -> id, time of issue","tracker/udp/conndb.go")],
 ["UDP replies and later membership"])
p("C08","Connection ids live for the expiry and die at the next trim after it",
 "A connection id keeps being accepted from its address until a newer one is issued to that address or it is older than the configured expiry, and no trim pass removes it earlier; once it is older than the expiry the next trim pass ends it. Re-connecting renews the age.",
 ["schedules","histories","fault_sequences"],"every placement of connects and announces relative to trim passes, concurrent trims, every expiry and trim setting, graceful restarts in between",
 "The only trim test uses a nanosecond expiry and one entry.",
 ["tracker/udp/conndb.go","tracker/udp/udptracker.go","tracker/utils/runon.go"],
 [("age test","tracker/udp/conndb.go trim"),("periodic trim","tracker/udp/udptracker.go Init")],
 [("issue time","per connection entry","tracker/udp/conndb.go")],
 ["accept/reject of announces over simulated time"])
p("C09","A peer is advertised only under the address its announce came from",
 "The address stored and advertised for a peer is the network source of its announce (behind an app-engine router: the last address of the forwarded-for header), in its native family, never an address chosen in the request body and never one belonging to a concurrent or earlier request; the port is the one announced in that same request.",
 ["schedules","inputs","configurations"],"every interleaving of announces from different sources on shared workers, IPv4, IPv6 and IPv4-mapped sources, any address in the request's ip field or query, forwarded headers of any shape in the app-engine build",
 "Tests announce from loopback with one worker; the header parser is tested on complete fresh buffers only.",
 ["tracker/udp/udptracker.go","tracker/http/worker.go","tracker/http/forwarded_appeng.go","tracker/storage/map/peer.go"],
 [("source address from the socket","tracker/udp/udptracker.go process"),("forwarded header","tracker/http/forwarded_appeng.go")],
 [("peer entry","address and port","tracker/storage/types.go")],
 ["peer lists"])
p("C10","An HTTP reply depends only on the bytes of its own connection",
 "The reply to and effect of an HTTP request are determined by the bytes that arrived on its own connection, however TCP splits or delays them and whatever the same or another worker served before or serves concurrently. A request that is incomplete when its connection ends or times out has no effect, and no part of another client's request is ever used to complete it.",
 ["schedules","inputs","fault_sequences"],"every sequence of requests on reused workers, every segmentation, truncation, stall and reset, every worker count",
 "Parser tests use fresh exact-size buffers, and no test sends a request in two parts or reuses a worker's buffer.",
 ["tracker/http/worker.go","tracker/http/parser.go","tracker/http/forwarded_appeng.go"],
 [("request parser","tracker/http/parser.go"),("per-worker read buffer","tracker/http/worker.go work")],
 [("worker buffer","2600 bytes reused between connections","tracker/http/worker.go")],
 ["HTTP replies and later membership"])
p("C11","No network input or I/O fault kills the tracker or stops it serving",
 "Whatever bytes arrive over UDP or TCP, however requests interleave, and whatever socket reads, writes and accepts fail, the tracker process neither panics, hits a fatal runtime error, nor exits. Once the faults stop, every well-formed UDP and HTTP request is answered within a bounded time.",
 ["schedules","inputs","fault_sequences"],"every malformed or hostile input, every interleaving including simultaneous statistics requests, every failing socket call, any number of worker threads",
 "The tests (and the parser's fuzz seeds) never combine concurrency, malformed input and failing sockets, and never look whether the tracker still serves afterwards.",
 ["tracker/udp/udptracker.go","tracker/http/worker.go","tracker/http/parser.go","tracker/http/fakeresp.go","tracker/http/forwarded_appeng.go","tracker/storage/map"],
 [("worker loops continue after errors","tracker/udp/udptracker.go, tracker/http/worker.go"),("size checks","tracker/udp/udptracker.go process")],
 [("worker goroutines","fixed number per server","tracker/udp/udptracker.go, tracker/http/worker.go")],
 ["process exit, panics, replies after faults"])
p("C12","A slow or silent HTTP client holds a worker only for the configured timeouts",
 "However slowly a TCP client sends its request or reads its reply, and whether it stalls, half-closes or vanishes, it occupies an HTTP worker for at most the configured read plus write timeout, after which its connection is closed and the worker serves others. Clients within the timeouts are not cut off.",
 ["schedules","fault_sequences"],"every pattern of stalls, trickled bytes, unread replies and vanished peers, up to all workers at once",
 "No test opens a connection and stays silent, and the tests set the timeouts to two nanoseconds.",
 ["tracker/http/worker.go"],
 [("read and write deadlines","tracker/http/worker.go work")],
 [("deadlines","per connection","tracker/http/worker.go")],
 ["time until other clients are served; connection close times"])
p("C13","A graceful restart with file backup preserves every swarm",
 "With file backup configured, stopping the tracker by its stop signal and starting it again restores every swarm as it was: each peer whose announce had been answered before the signal, with its address, port, completeness and age, the matching counts, and nothing else. Any number of such restarts loses or invents nothing, and a start that cannot read the backup fails instead of continuing without it.",
 ["histories","schedules","crash_points"],"every history of announces before the stop, every mix of address families and swarm sizes including empty swarms and an empty database, stops racing traffic and periodic backups, repeated restarts",
 "One test encodes and decodes a database of one peer inside one process; no test starts a tracker from a backup.",
 ["tracker/tracker.go","tracker/signalhandler.go","tracker/storage/map/backup_file.go","tracker/storage/map/encode_binary.go","tracker/storage/database.go"],
 [("save on exit signal","tracker/signalhandler.go"),("load on start","tracker/storage/database.go Open")],
 [("backup file","binary image of all swarms","tracker/storage/map/encode_binary.go")],
 ["membership, counts and expiry after restart"])
p("C14","A crash or disk error during a backup never costs the previous backup",
 "At whatever instant the tracker is killed or the machine loses power, and whatever disk write fails, is short or runs out of space during a backup, the next start succeeds and restores one complete backup: the newest whose completion was durable, or the one being written. A failed backup attempt leaves the earlier one usable and the tracker running.",
 ["crash_points","fault_sequences","histories"],"every crash point between and inside file operations of a backup, process kill and power loss with un-synced data lost, torn writes, short writes, full disk, failing open/sync/rename, repeated crashes",
 "No test interrupts a backup or makes a write fail.",
 ["tracker/storage/map/backup_file.go","tracker/storage/map/encode_binary.go","tracker/signalhandler.go"],
 [("file replacement","tracker/storage/map/backup_file.go writeFile")],
 [("backup file","durable image","tracker/storage/map/backup_file.go")],
 ["start-up outcome and membership after the crash"])
p("C15","A backup taken under traffic is a consistent, loadable image",
 "A backup taken while announces, stops and trims proceed always loads, and gives for every peer a state that peer had at some instant while the backup was being taken: peers untouched meanwhile are present exactly as they were, none is duplicated, invented or moved to another swarm. Taking it never blocks or corrupts serving, and overlapping backups (periodic, signalled, final) leave the newest on disk.",
 ["schedules","histories"],"every interleaving of the encoder with announces, stops, swarm creation and removal, and of backups with one another",
 "The encoder is only tested on an idle one-peer database.",
 ["tracker/storage/map/encode_binary.go","tracker/storage/map/backup_file.go","tracker/signalhandler.go","tracker/storage/map/memory.go"],
 [("per-swarm read lock while encoding","tracker/storage/map/encode_binary.go encodeBinary")],
 [("peer count prefix","number of peer records that follow","tracker/storage/map/encode_binary.go")],
 ["membership after loading the backup"])
p("C16","Stop signals end the tracker promptly; the save signal never disturbs it",
 "A stop signal (interrupt or terminate), at any moment once the tracker has installed its signal handlers and under any load or disk failure, makes the tracker release its sockets, save, and exit with success within a bounded time. The save signal writes the peer backup and the connection database as of that moment, each even if the other cannot be written, and leaves the tracker serving; other signals are harmless.",
 ["schedules","fault_sequences","histories"],"signals at every instant including during start-up and during another backup, repeated signals, busy and stalled workers, failing disks, each protocol enabled or disabled",
 "TestMain sends one SIGTERM to an idle tracker and looks at nothing.",
 ["tracker/signalhandler.go","tracker/udp/udptracker.go","tracker/http/httptracker.go","tracker/tracker.go"],
 [("signal loop","tracker/signalhandler.go"),("shutdown channels","tracker/udp/udptracker.go, tracker/http/httptracker.go")],
 [("shutdown channel","hand-shake with Serve","tracker/udp/udptracker.go")],
 ["exit code and time, files written, service after the save signal"])
p("C17","Connection ids survive a graceful restart; a damaged file never blocks start",
 "After a graceful stop and start every connection id that was valid is still accepted from its address, and none that was not becomes accepted. If the tracker crashed, or the file is missing, torn or was never completely written, the tracker still starts, accepts only ids it really issued, and lets clients connect anew.",
 ["crash_points","histories","fault_sequences"],"every set of connections of both families, crash and disk-fault points during the write, stop signals during start-up, repeated restarts",
 "One test writes and reads two entries in one process without interruption.",
 ["tracker/udp/conndb.go","tracker/udp/udptracker.go","tracker/signalhandler.go"],
 [("write on signal, load on start, empty on error","tracker/udp/udptracker.go Init/WriteConns")],
 [("conn.db","encoded connection map","tracker/udp/conndb.go")],
 ["accept/reject of ids after restart"])
p("C18","Published gauges agree with the database",
 "Whenever traffic has drained and a statistics interval has passed, the published numbers of seeds, leeches, peers, distinct addresses, swarms and UDP connections equal those of the tracker's actual contents. This holds after any history of concurrent announces, address changes, stops, expiries and restarts from a backup, and for any number of peers behind one address.",
 ["schedules","histories"],"every interleaving of updates touching one peer or one address, trims, restarts with a loaded backup",
 "No test reads a statistic.",
 ["tracker/stats/stats_slow.go","tracker/stats/publish.go","tracker/storage/map/peer.go","tracker/storage/map/expvar.go"],
 [("incremental gauges","tracker/storage/map/peer.go"),("recount on start","tracker/storage/map/expvar.go SyncExpvars")],
 [("seeds, leeches, per-address counts","process-wide gauges","tracker/stats/stats.go")],
 ["the HTTP /stats document"])
p("C19","Request statistics count every request exactly once",
 "Over any period, the per-interval request numbers published (hits, connects, announces, scrapes) add up to the requests actually received, and the error totals to the errors answered: none is lost or counted twice at the boundary of a statistics interval.",
 ["schedules","histories"],"every interleaving of request handling with the periodic publication",
 "No test reads a statistic, and publication is switched off in the tests.",
 ["tracker/stats/publish.go","tracker/stats/stats.go","tracker/udp/udptracker.go","tracker/http/worker.go"],
 [("periodic read and reset","tracker/stats/publish.go Publish")],
 [("request counters","since last publication","tracker/stats/stats.go")],
 ["published counters at every interval"])
p("C20","Periodic maintenance runs once per period, on the tick, whatever the clock does",
 "Trimming, backups and statistics run at every multiple of their period, at most once per multiple, and a run that overran or was stalled delays at most the ticks it overlapped. A step of the wall clock in either direction disturbs the schedule for at most one period: maintenance is neither suspended until the clock catches up nor repeated for every tick skipped.",
 ["schedules","fault_sequences","histories"],"every period, every start time, stalls and long runs, forward and backward clock steps at any moment",
 "Nothing tests the periodic runner.",
 ["tracker/utils/runon.go","tracker/storage/map/memory.go","tracker/udp/udptracker.go","tracker/stats/publish.go"],
 [("tick computation","tracker/utils/runon.go RunOn")],
 [("next tick","wall-clock multiple of the period","tracker/utils/runon.go")],
 ["times at which the task runs"])
p("C21","Daemon commands report the truth and always come back",
 "Start launches one tracker and records its process id, or fails and leaves none running, and refuses when one is running; stop returns success only once the recorded process is gone and its record cleared, and otherwise an error, within about ten seconds, and while the process lives its record stays; status tells truthfully whether the record exists, the process lives and the tracker answers. Each command terminates even if the tracker hangs, ignores signals, has crashed, or its packets are lost.",
 ["schedules","fault_sequences","histories"],"every state of the pid file and the process, trackers that exit slowly, never, or crash at any moment, lost heartbeat packets, sequences of commands",
 "Tests cover reading and writing the pid file only.",
 ["controller/controller.go","controller/pidfile.go"],
 [("signal and poll","controller/controller.go Stop"),("heartbeat","controller/controller.go Status")],
 [("pid file","recorded process id","controller/pidfile.go")],
 ["results and duration of the controller's commands"])
p("C22","Postgres backups restore the newest image and survive database faults",
 "With postgres backup configured, a start restores the newest stored image completely; an empty table, an empty peer database, failing or slow statements and lost connections never crash the tracker or stop later backups from succeeding once the faults end. A start that cannot read the stored image fails instead of continuing without it. However many backups are taken, the number of database connections in use stays bounded.",
 ["fault_sequences","histories","schedules"],"every history of backups and restarts, empty and populated databases, statement failures and connection losses at any call, backups racing traffic",
 "The postgres backup has no tests.",
 ["tracker/storage/map/backup_pg.go","tracker/storage/map/encode_binary.go"],
 [("insert newest, select newest","tracker/storage/map/backup_pg.go")],
 [("trakx table","timestamped images","tracker/storage/map/backup_pg.go")],
 ["membership after restart, connections in use, process survival"])
p("C23","Reply sizes and intervals stay within the configured bounds",
 "No announce reply lists more peers of a family than the client asked for, or than the configured default if it asked for none, or than the configured limit; over UDP a count below one means the default. The re-announce interval told to a peer is at least the configured base and at most base plus fuzz.",
 ["inputs","configurations","schedules","histories"],"every requested count, swarm size, family mix, limit and default, base and fuzz, under concurrent updates and recycled buffers",
 "Tests use swarms of one or two peers with a limit of ten, where no bound is ever reached, and a zero fuzz.",
 ["tracker/storage/map/hash.go","tracker/udp/announce.go","tracker/http/announce.go"],
 [("capping","tracker/storage/map/hash.go"),("interval","tracker/udp/announce.go, tracker/http/announce.go")],
 [],["announce replies"])
p("C24","Every HTTP request gets one complete, well-formed reply of its own",
 "Each HTTP request that arrives complete within the time allowed gets exactly one reply on its connection, which is then closed: a status line and, for announces and scrapes, one syntactically complete bencoded dictionary holding that request's result or a failure reason (the reply to a stop announce may be empty); a scrape reply is keyed by exactly the requested hashes. Concurrent replies built from shared buffers never mix.",
 ["schedules","inputs","fault_sequences"],"every interleaving of HTTP workers sharing reply buffers, all request kinds, valid and invalid, failing requests between good ones",
 "Tests call the announce function alone, sequentially, and never scrape or go through a connection.",
 ["tracker/http/worker.go","tracker/http/announce.go","tracker/http/scrape.go","tracker/http/error.go","pools/pools.go","bencoding/dictionary.go"],
 [("recycled dictionaries","pools/pools.go"),("handlers","tracker/http")],
 [("dictionary buffers","recycled encoders","pools/pools.go")],
 ["bytes written to each connection"])
p("C25","An interrupted first start never leaves a configuration later starts misread",
 "If the first start is killed, loses power or meets a disk error while it installs the default configuration file, every later start finds either no file, and installs it again, or the complete default; it never runs with a truncated configuration. An existing configuration file is never modified.",
 ["crash_points","fault_sequences"],"every crash point and disk fault while the default file is being written, repeated crashes, an existing user file",
 "The generator test runs once, uninterrupted.",
 ["config/embed.go","config/init.go","config/paths.go"],
 [("install default if absent","config/embed.go generateConfig")],
 [("trakx.yaml","user configuration","config/embed.go")],
 ["content of the configuration file after restart"])
p("C26","Every start continues from the state its preceding shutdown promised",
 "Across any mix of kills, graceful stops and starts with file backup, every peer a client knows to be registered (answered after the last restore, or contained in it) is visible until it stops, expires or the tracker goes down, and the state after each start is the one promised by the preceding shutdown: complete after a graceful stop, the last completed backup after a kill. Temporary files never accumulate without bound and are never mistaken for a backup.",
 ["histories","crash_points","fault_sequences"],"long histories of traffic, periodic backups, save signals, graceful stops, kills and power losses, with several generations of restarts",
 "No test ever restarts a tracker.",
 ["tracker/tracker.go","tracker/signalhandler.go","tracker/storage/map/backup_file.go","tracker/storage/map/memory.go"],
 [("startup, periodic and final saves","tracker/tracker.go, tracker/storage/map/memory.go, tracker/signalhandler.go")],
 [("backup file","durable image","tracker/storage/map/backup_file.go")],
 ["membership over several generations"])
# pure functions: listed, but not decidable by this family
p("C27","Bencode encoders produce canonical encodings of every value",
 "For every string, byte string, integer, list and nested dictionary, encoding then decoding with an independent bencode decoder gives the value back.",
 ["inputs"],"every value","Tests encode a handful of values.",
 ["bencoding/encoding.go","bencoding/dictionary.go"],[("encoders","bencoding")],[],["encoder output"])
p("C28","UDP message codecs are inverse to each other on every message",
 "Decoding the encoding of any protocol message gives the same message, and the encoding has the layout of BEP 15.",
 ["inputs"],"every message","Only message kinds used by the integration tests are exercised.",
 ["tracker/udp/protocol"],[("codecs","tracker/udp/protocol")],[],["codec output"])
p("C29","The tracker runs with the settings in force, whatever else changes around it",
 "On every start each setting is the value of its environment variable if set, else that of the first configuration file found in the working directory and the user's configuration directory, in the documented units, with ENV: and ~ expanded; an earlier start's settings are not remembered. The running tracker does what they say: it binds the configured addresses and ports, tells the configured intervals and sizes, expires peers and connection ids, trims, times out clients, and backs up to the configured place at the configured times; changes made while it runs take effect at its next start. The daemon commands act on the tracker of the same settings.",
 ["configurations","histories","fault_sequences"],"every subset and value of settings in the environment and both files, changed between and during runs, over several starts by command or directly, after stops, kills and save signals, IPv4, IPv6 and unspecified addresses, clock at any date",
 "Tests set configuration fields directly and never start a tracker from a file, let alone a second one with other settings.",
 ["config/load.go","config/config.go","tracker/tracker.go","controller/controller.go","tracker/http/httptracker.go"],
 [("loader","config/load.go"),("addresses of listeners and heartbeats","config/config.go, tracker/tracker.go, controller/controller.go")],
 [("configuration","all settings","config/config.go")],
 ["listening sockets, replies, expiry and timeout instants, files written"])
p("C30","URL unescaping decodes every valid escape and nothing else",
 "The HTTP query decoder maps every validly escaped byte string to the bytes it denotes, in place, for every length and position of escapes.",
 ["inputs"],"every query","Seven examples are tested.",
 ["tracker/http/parser.go"],[("unescapeFast","tracker/http/parser.go")],[],["parsed parameters"])
p("C31","Serving leaks nothing: load that is over leaves no trace",
 "Once every request has been answered or has timed out and every peer and connection id has expired, the tracker holds no more goroutines, open files, client sockets, database connections, swarms, peers or connection ids than before it served anything, whatever mix of valid, malformed, abandoned and failing requests, saves and reconnects came before.",
 ["schedules","histories","fault_sequences","inputs"],"every mix of requests, stalled and vanishing clients, accept, read and write errors, save signals, failing saves and database statements, any number of times over, followed by silence",
 "Tests issue a handful of requests and never look at what remains; a leak per failed request needs the failure and the later comparison.",
 ["tracker/http/worker.go","tracker/udp/udptracker.go","tracker/udp/conndb.go","tracker/storage/map/memory.go","tracker/storage/map/backup_pg.go","tracker/storage/map/backup_file.go","tracker/utils"],
 [("connections closed on every path","tracker/http/worker.go"),("trim of peers, empty swarms and connection ids","tracker/storage/map/memory.go, tracker/udp/conndb.go")],
 [("goroutines, descriptors, sockets, database connections","of the tracker process","operating system"),("swarm map and connection ids","memory that grows with traffic","tracker/storage/map/memory.go, tracker/udp/conndb.go")],
 ["resources of the process at quiescence, published gauges"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    if n>3: print("sentences?",x["id"],n)
print(len(P))
