B = "Seeded random search, not exhaustive; the real server and clients run under a simulated kernel (threads, clocks, network, disk)."
NOTE = {
 "P01": ("durability of acknowledged effects over the recorded history and crash images", B + " Crashes at arbitrary file operations and scheduling points; database images taken at random file operations stand for further crash points."),
 "P02": ("structural invariants on database images taken at arbitrary crash points", B + " Invariants evaluated on up to 60 images per run."),
 "P03": ("mutual exclusion over the recorded history of grants and releases", B + " Holds are derived from what clients saw; intervals in which a release may be in flight are not judged."),
 "P04": ("progress after faults stop: every submission ends within a bound", B + " Liveness as a bound of simulated time after the last fault."),
 "P05": ("completion accounting over history and images", B),
 "P06": ("monotonic status over every observer's history", B),
 "P07": ("reference model of retries against history and images", B),
 "P08": ("cancellation semantics over history and images", B),
 "P09": ("bounded waiting: no request stays unanswered while a chunk is available", B + " What may be reserved is over-approximated from what clients saw, so a chunk is only called available when nobody can hold it."),
 "P10": ("reference order over each answer to a reservation request", B + " Answers are judged when the chunks available at that moment are known for certain (from images just before and after, and from what clients saw)."),
 "P11": ("reference model of the work in flight, checked against each answer", B + " Judged in the same settled moments as P10, after storms in which reservations ended in every way there is."),
 "P12": ("retention judged on images against the server's (jumping) clock", B + " Ages up to a day are reached by jumps of the server's clock; the end of a submission is known to within one image."),
 "P13": ("reference comparison of every reported field with what was submitted", B),
 "P14": ("heartbeat budget of silent and of live peers over the recorded history", B + " Peers are silenced by kills, freezes, partitions in each direction and forgotten connections; the budget is (missable+2) intervals plus the longest delay of the simulated network."),
 "P15": ("failing reads, writes, syncs and full disks; durability, structure and service afterwards", B + " Errors are injected per file operation of the database (read, write, sync, truncate) at random rates and in windows; memory-mapped reads do not fail."),
 "P16": ("expiry times of every reservation over the recorded history", B + " Expiry is judged with a tolerance of the reserver's housekeeping interval and the delays of the simulated network."),
 "P17": ("bounded return of every client call and recovery after faults stop", B + " Bounds: heartbeat budget + 25 s for consumer calls, 100 s for producer calls (the keep-alive of their connections)."),
 "P18": ("contents written and read through an object store with faults, compared with a model of every object", B + " The object store is a stub HTTP server with the faults of a real one (slow, 500, 403, dropped requests, lost acknowledgements, truncated bodies); cloud-specific authentication is not covered."),
 "P19": ("invariants under duplicate, late and foreign reports", B),
 "P20": ("power losses with lost, torn and reordered unsynced writes; images checked as prefixes of the committed history", B + " The disk model keeps what was synced and loses, keeps, tears or reorders (at write granularity) what was not; sector-level reordering inside one synced region is not modelled."),
 "P21": ("answers of /ping and /metrics against the injected outages, the database image, the connections and the grants", B + " Bounds: 48 s to turn unhealthy (10 s period, 30 s wait for the connection, 5 s lock timeout), 20 s to recover, 8 s of quiet before gauges are compared. Disk errors that do not keep a transaction from being run (the check writes nothing) are outside the property."),
 "P22": ("bounded exit, closed connections and durability after SIGINT at arbitrary moments", B),
}
NA = {}
