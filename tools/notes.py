COMMON = " Seeded sampling, not proof: it shows the property on the runs explored. Trusts the simulated kernel, the harness and the reference model."
TECH = dict(
 C01="seeded mailbox histories against a reference model of the index",
 C02="each seeded history is run twice, with and without purges, and the databases compared",
 C03="seeded commands, aliases of indexed folders and failures at any call; every change to mail recorded and hashed",
 C04="seeded sequences of searches into reused match folders with output failures, folder contents against a model",
 C05="seeded schedules of concurrent processes with signals and failures, lock ownership checked at every step",
 C06="every way of ending (errors, out of memory, signals, kills, closed output) at seeded points, left-over files checked",
 C07="kills, signals and power loss at seeded points of index runs, database compared with old and new",
 C08="seeded I/O errors and full disks on the database, exit status against database state",
 C09="seeded conversations delivered in any order and partly deleted, against a union-find model",
 C10="mail delivered, moved and deleted at seeded steps of index runs, transient read failures; repaired by the next run against the model",
 C11="a simulated IMAP server splits, delays, refuses, stalls and drops at seeded points; results against a model of the mailboxes",
 C12="every file opened or examined by seeded index runs recorded and compared with what the history changed",
 C13="seeded directory trees, configurations, directory orders and unreadable entries against a model of folder selection",
 C14="seeded queries, clock jumps and time zones over mail histories, against a reference evaluator",
 C16="mboxes altered at seeded places before and during searches, everything written out compared with what was indexed",
 C15="seeded allocation failures, state and repeat compared with a dry run",
)
NOTE = {}
NA = {}
