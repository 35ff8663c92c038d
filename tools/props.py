#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that ids, texts and anchors live in one place)."""
import json, os, re
P = []
def where(name, files):
    """file that defines (or else first mentions) the symbol"""
    for pat in (r"(?m)^[a-z#].*\b%s\b *\(?" % re.escape(name), r"\b%s\b" % re.escape(name)):
        for f in files:
            try: t = open(os.path.join("/repo", f)).read()
            except OSError: continue
            if re.search(pat, t): return f
    return files[0]
def p(id, title, statement, over, text, why, files, symbols=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files))
    d["anchors"]["mechanism"] = [dict(name=n, where=where(n, files)) for n in (symbols or [])]
    P.append(d)

p("C01", "Searches after an index run see exactly the live mail",
  "After any history of mail being added, changed, re-flagged, moved, renamed or deleted in maildir, MH, mbox, MMDF and compressed mbox folders, with successful index runs interleaved, a search for words in To, Cc, From, Subject, body, attachment name or Message-ID returns exactly the messages that existed at the last index run and contain those words there. No live message is missed, no deleted message is returned, and each is returned once. The answer does not depend on the order of the history, on directory order, on the database hash key, or on which runs were incremental. (Assumed, as the manual does: a changed file or mbox shows in its modification time or size, and an mbox is not rewritten in a way that leaves a later message unchanged at its old offset while earlier ones change.)",
  ["histories", "inputs", "configurations"],
  "every finite history of mailbox mutations and index runs, every directory enumeration order, hash key, pid and clock value",
  "The tests build one or two fixed mail stores with one readdir order and one hash key, index them at most three times, and compare a fixed dump; they never interleave many mutations with many runs, so state carried from run to run is unexplored.",
  ["db.c", "mbox.c", "tok.c", "rfc822.c", "nvp.c", "writer.c", "reader.c", "search.c", "dirscan.c"],
  ["update_database", "build_mbox_lists", "add_mbox_messages", "tokenise_message", "write_database", "new_database_from_file"])
p("C02", "Purging is invisible to searches and drops only dead mail",
  "An index run with purge requested leaves every search without -t, including searches by date, size, flag, path, attachment name and Message-ID, with the same answer as the same run without purge, at that point and after any further history. Afterwards the database contains no record of messages that no longer exist and still contains every message that does.",
  ["histories", "inputs"],
  "every history, every choice of which index runs purge, every set of dead messages and hash-table layout",
  "The purge tests remove one folder and compare one dump; the shuffling of hash chains, renumbering and mbox compaction depend on which messages died and how tokens collided.",
  ["db.c", "mbox.c", "tok.c"], ["cull_dead_messages", "recode_toktable", "cull_dead_mboxen"])
p("C03", "Indexed mail is never modified, created or deleted",
  "Whatever mairix is asked to do (index, search into any kind of match folder, augment, hard links, excerpt, dump, unlock) and whatever fails while it does it, every message file, mbox and directory of the indexed folders keeps its name, content and modification time. A search whose match folder is one of the indexed folders, by whatever name, is refused before anything in it is touched. (A match folder that is a subdirectory or a parent of an indexed folder is the user's responsibility.)",
  ["histories", "fault_sequences", "crash_points", "configurations"],
  "every sequence of operations and options, every mail store, every injected system-call failure, kill or signal point",
  "The tests write to an empty private match folder, never reuse one that already holds links to source mail after the index has been renumbered, and never make a call fail.",
  ["search.c", "mairix.c", "mbox.c", "dotlock.c", "writer.c"], ["try_copy_to_path", "create_symlink", "clear_maildir_subfolder", "clear_mh_folder", "search_top"])
p("C04", "The match folder holds exactly the matches, byte for byte",
  "After a search that exits with success the match folder (maildir, MH or mbox; by symbolic link, hard link or copy) contains one entry per matched message and nothing left from an earlier search, and reading an entry yields that message's text and, in a maildir, its seen/replied/flagged state. Messages that are new in their maildir stay new there, an mbox match folder keeps an empty line between messages, and with sort=date+ the messages come in ascending order of their dates. With augment the folder contains the matches of all the augmenting searches as well as what was there before. Files in a match folder that are not messages are left alone. Raw output lists and excerpt output shows the same messages, the latter with their own addresses, subject and date. If a match cannot be read, or writing it fails, the search exits with a failure status.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every sequence of searches with and without augment, purges in between, every mix of source and result folder formats, every failing output call and full disk",
  "Each test does one search into an empty folder; reuse of the folder, augmenting over earlier entries and renumbering by purge never happen.",
  ["search.c", "mbox.c"], ["do_search", "append_file_to_mbox", "append_mboxmsg_to_mbox", "mk_mh_path", "mk_maildir_path"])
p("C05", "At most one process works on a database at a time",
  "For every interleaving of any number of mairix processes on one database, including processes that are interrupted by signals, fail or exit while others start, no two processes are ever between acquiring the lock and releasing it at the same time. A process that finds the database locked exits with a failure status and leaves the database, the match folder and the other process's lock alone.",
  ["schedules", "fault_sequences"],
  "every interleaving of the system calls of concurrent mairix runs, every signal delivery point",
  "No test ever runs two mairix processes at once or delivers a signal.",
  ["dotlock.c", "mairix.c"], ["lock_database", "unlock_database", "unlock_and_exit"])
p("C06", "The lock never outlives an orderly exit and stale locks are clearable",
  "However a mairix process ends other than by being killed outright - success, usage error, I/O error, a database that cannot be opened or recognised, out of memory, no matches, closed output, SIGINT, SIGHUP, SIGQUIT or SIGTERM - it leaves neither its database lock nor its temporary lock file behind. After a process has been killed outright, a later run with --unlock succeeds and the run after it needs no unlock.",
  ["fault_sequences", "crash_points", "schedules"],
  "every system-call or allocation failure, every signal or kill point, every operation",
  "The tests only run to normal completion and never look for lock files.",
  ["dotlock.c", "mairix.c", "rfc822.c", "imap.c", "mbox.c", "search.c", "writer.c", "reader.c"], ["unlock_and_exit", "out_of_mem", "handlesig"])
p("C07", "An interrupted index run leaves the old or the new database",
  "If an index run is killed, interrupted by a signal, or the machine loses power at any point, the database file afterwards is either the one from before the run or the complete one the run was writing; if there was none before, there is none or a complete one. The next index run needs no manual repair beyond clearing the lock and brings searches fully up to date.",
  ["crash_points", "histories"],
  "every kill, signal or power-loss point of every index run in every history, every subset of unsynced pages reaching the disk",
  "No test interrupts anything.",
  ["writer.c", "mairix.c", "db.c"], ["write_database", "create_rw_mapping"])
p("C08", "A failed database update is reported and changes nothing",
  "If the database cannot be written completely - disk full, I/O error, permission, failed sync, rename, mapping or size change at any point - the index run exits with a failure status and the previous database stays in place and usable. Conversely an index run that exits with success has stored everything it found: an immediately following search reflects all of it.",
  ["fault_sequences", "histories"],
  "every single or repeated failure of a call that writes or reads the database, every disk-full point, every history",
  "The tests never make a system call fail and never fill a disk.",
  ["writer.c", "reader.c", "mairix.c"], ["write_database", "open_db"])
p("C09", "Thread searches return whole conversations",
  "With -t a search returns every live message connected to a live match through a chain of shared Message-ID, In-Reply-To or References identifiers of messages known to the index, and nothing outside that conversation. This holds in every order of arrival of the messages, across folders and formats, and after deletions and purges.",
  ["histories", "inputs", "schedules"],
  "every reference graph, every arrival order and split over index runs, deletions and purges in between",
  "One thread test with one fixed chain indexed in one run; renumbering after deletion and merges of existing conversations by a late message are not reached.",
  ["db.c", "search.c", "tok.c"], ["find_threading", "do_search", "add_angled_terms"])
p("C10", "Transient trouble while indexing is repaired by the next run",
  "If, while an index run is in progress, mail is being delivered, moved or deleted, or files and directories are temporarily unreadable, the run neither crashes nor hangs (a mail file being truncated in place while it is read excepted). Once the trouble is over the next ordinary index run makes searches exact again, whether or not the disturbed run reported failure, provided that changes show in the modification time or size.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of mailbox mutations with the run's system calls, every transient read, open, stat, map or directory error",
  "The tests index a quiescent mail store with no failing call.",
  ["db.c", "mbox.c", "dirscan.c", "rfc822.c"], ["scan_new_messages", "build_mbox_lists", "create_ro_mapping", "do_stat"])
p("C11", "IMAP indexing and fetching is exact and survives a bad connection",
  "Indexing and searching IMAP folders gives the same result however the server's byte stream is split, delayed or interspersed with unsolicited responses, and IMAP messages obey the same search guarantees as local ones. A search that succeeds has put the text of every matched IMAP message into the match folder, and when that is an IMAP folder it holds exactly the matches. If the server refuses, stalls or disconnects at any byte, mairix gives up within minutes without crashing, a search whose matches could not be delivered exits with a failure status, no wrong or partial message is ever indexed or delivered, and once the server is back the next index run makes searches exact again.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "every segmentation and timing of the server stream, every disconnect byte, every NO/BAD/unsolicited response, every mailbox history",
  "There is no IMAP test at all.",
  ["imap.c", "imapinterface.c", "db.c", "search.c"], ["imap_login", "imap_fetch_message_raw", "build_imap_message_list", "make_rfc822_from_imap"])
p("C12", "Index runs are incremental and idempotent",
  "An index run opens only message files and mboxes that are new or whose modification time or size differs from what the database records, and fetches only IMAP messages that are new; everything else is only stat'ed or listed. If nothing changed, the run succeeds, leaves the database file byte for byte as it was, and searches answer as before; with fast indexing it does not even look at message files already known (and so, as documented, does not notice when one changes in place).",
  ["histories", "configurations"],
  "every history of mailbox changes and index runs, with and without fast indexing and purge",
  "The tests look only at the final dump, not at which files were opened or whether the database was rewritten.",
  ["db.c", "mbox.c", "mairix.c"], ["update_database", "build_mbox_lists", "do_stat"])
p("C13", "Exactly the configured folders are indexed",
  "For every directory tree and configuration the index contains the messages of exactly the maildir, MH, mbox and MMDF folders named by the configuration, with '...' recursing and wildcards expanding, minus those matched by omit patterns. A configuration that reaches the same folder or message twice by the same path either yields each message once or is refused with a failure status, leaving the database as it was. Unreadable, missing, dangling or oddly named entries neither stop the run nor hide messages in the others. (Left open: folders below an omitted folder, loops of directory links, paths with characters the rc file gives a meaning.)",
  ["inputs", "configurations", "fault_sequences"],
  "every directory tree, pattern list, directory enumeration order and set of unreadable entries",
  "The tests use five fixed folder names and one omit setting on a fully readable tree.",
  ["dirscan.c", "mbox.c", "glob.c", "mairix.c", "expandstr.c"], ["build_message_list", "scan_directory", "build_mbox_lists", "is_globber_array_match"])
p("C14", "Queries mean what the manual says, at every moment",
  "Date ranges (absolute and relative to the current time), size ranges, flags, path substrings, substring and approximate word matches with the stated number of errors, negation, conjunction, disjunction and multi-field patterns select exactly the live messages the manual describes, at any value of the clock. Combining arguments intersects their results.",
  ["inputs", "histories", "configurations"],
  "every query built from the documented operators, every mail store history and every current time",
  "Each operator is tested with a few fixed words and dates on one store; the relative-date forms, which depend on the clock, are not tested.",
  ["search.c", "dates.c", "datescan.nfa", "reader.c"], ["do_search", "scan_date_string", "substring_match_general"])
p("C15", "Running out of memory is a clean failure",
  "If any memory allocation fails at any point of an index run or a search, mairix exits with a failure status, the database and all mail are unchanged, no lock is left behind, and repeating the command with memory available succeeds with the normal result.",
  ["fault_sequences", "histories"],
  "every allocation index of every operation in every history",
  "No test makes an allocation fail.",
  ["memmac.h", "mairix.c", "imap.c", "xzfile.c"], ["safe_malloc", "out_of_mem"])
p("C16", "A changed mbox never yields a wrong message",
  "If an mbox, MMDF or compressed mbox has been changed in any way since it was indexed, a search that matches messages in it writes out only messages whose text is exactly what was indexed, and says on stderr when some could not be verified. Messages still in place unchanged are still written out. It never crashes and never writes a fragment of another message. (A file rewritten in place while it is being read excepted.)",
  ["histories", "schedules", "inputs"],
  "every modification (append, delete, reorder, truncate, replace, removal) between indexing and search, also while the search is running",
  "No test changes an mbox between indexing and searching.",
  ["mbox.c", "search.c", "rfc822.c"], ["get_validated_mbox_msg", "append_mboxmsg_to_mbox", "try_copy_to_path"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
