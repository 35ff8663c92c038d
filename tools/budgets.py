# property -> ((quick runs, quick cap seconds), (thorough runs, thorough cap seconds))
DEFAULT = ((40000, 90), (20000000, 1800))
BUDGET = {
 "C01": ((20000, 90), (20000000, 1800)),
 "C03": ((70000, 90), (20000000, 1800)),
 "C04": ((25000, 90), (20000000, 1800)),
 "C05": ((150000, 90), (20000000, 1800)),
 "C06": ((120000, 90), (20000000, 1800)),
 "C07": ((30000, 90), (20000000, 1800)),
 "C08": ((30000, 90), (20000000, 1800)),
 "C02": ((25000, 90), (20000000, 1800)),
 "C09": ((25000, 90), (20000000, 1800)),
 "C14": ((35000, 90), (20000000, 1800)),
 "C10": ((30000, 90), (20000000, 1800)),
 "C11": ((16000, 90), (20000000, 1800)),
 "C16": ((17000, 90), (20000000, 1800)),
 "C12": ((18000, 90), (20000000, 1800)),
 "C13": ((28000, 90), (20000000, 1800)),
 "C15": ((80000, 90), (20000000, 1800)),
}
ASSUME = ["the simulated kernel behaves as POSIX prescribes for the calls mairix makes; unsynced data and metadata may be lost in any page subset and any suffix of the metadata log at power loss",
          "mail programs touch mail files only in the ways the workload generates",
          "one simulated process runs at a time and can be preempted, killed or signalled only at its system calls"]
RULE = {}
