#!/usr/bin/env python3
"""Writes known_findings.jsonl: the repaired defects (from the fix: commits in /repo) and those recorded but not repaired."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [ # subject, property, what failed
 ("write the database to a temporary file and rename it into place", "C07", "an index run killed or hit by a full disk while writing left a torn database or none"),
 ("check for errors when decompressing an mbox to its temporary file", "C10", "a full /tmp or read error while decompressing an mbox killed the run with SIGBUS or indexed part of it"),
 ("do not start a new database because the existing one cannot be examined", "C08", "a failing stat() of the database made the run replace it by a new one with success"),
 ("never work without the database lock, nor remove that of another process", "C05", "a failing link() or a signal while locking let a process work without the lock or remove another's"),
 ("release the lock when running out of memory", "C06", "out of memory left the lock behind"),
 ("release the lock and fail when the IMAP code runs out of memory", "C15", "out of memory in the IMAP code crashed or left the lock behind"),
 ("renumber the threads after purging dead messages", "C09", "after a purge thread numbers belonged to other messages, so -t returned unrelated mail"),
 ("do not show the thread of a message that no longer exists", "C09", "-t returned the conversation of a deleted message although no live message matched"),
 ("do not overwrite what is in the match folder already when augmenting it", "C04", "an augmenting search after a purge wrote through a link in the match folder into an indexed message (C03) or replaced an earlier match"),
 ("release the lock when terminated or when nobody reads the output any more", "C06", "SIGTERM and SIGPIPE left the lock behind"),
 ("refuse to write matches when it cannot be told whether their folder is indexed", "C03", "a failing stat or readdir while checking let a search clear an indexed folder"),
 ("survive an IMAP server that refuses or stops answering", "C11", "a refused or dropped IMAP command crashed mairix (null pointers, uninitialised result)"),
 ("refuse to put matches into an indexed IMAP folder", "C03", "a search with mformat=imap cleared an indexed IMAP folder"),
 ("do not append an mbox message that has changed to an IMAP folder", "C16", "an mbox message with a failed checksum crashed a search into an IMAP folder"),
 ("create the IMAP match folder when appending the first message to it", "C11", "the first match put into a new IMAP match folder was lost"),
 ("try again later to index a message that cannot be read now", "C10", "a message file that could not be read was recorded as indexed and never tried again"),
 ("do not unmap a cached decompressed mbox that is still in use", "C04", "a search matching a compressed mbox again after a plain one crashed (use of an unmapped mapping)"),
 ("index a message file again when only its size has changed", "C01", "a message file changed without a new modification time kept its old words"),
 ("notice that an mbox behind a symbolic link has changed", "C01", "with follow_mbox_symlinks new mail in an mbox behind a link was never indexed"),
 ("do not map more of a file than it has when it is replaced while being opened", "C10", "a file replaced by a shorter one between stat and open killed the run with SIGBUS"),
 ("do not index an mbox that is rewritten while it is being indexed", "C10", "an mbox replaced between being scanned and being indexed gave wrong or out-of-bounds messages, for good"),
 ("report matches that could not be put into the match folder", "C04", "a full disk or failing call while clearing or filling the match folder went unnoticed: success, but matches missing or old ones left"),
 ("do not drop the last character of an mbox that lacks a final newline", "C04", "the copy of the last message of an mbox without final newline lost its last character"),
 ("match messages of the first day of a period given to d:", "C14", "d:20110101 never matched: the first day of a period was left out"),
 ("do not overflow when a relative date is more than 68 years ago", "C14", "d:70y- overflowed and selected nothing"),
 ("make path searches work with IMAP messages and together with other keys", "C14", "p: never matched IMAP messages and undid the other keys"),
 ("remember the sizes of IMAP messages", "C14", "z: never matched IMAP messages: their size was kept as 0"),
 ("index the rest of an mbox message that was still being delivered", "C10", "a message indexed while it was being appended to an mbox was never completed"),
 ("match glob patterns of more than 31 characters", "C13", "an omit pattern or wildcard of more than 31 characters was matched wrongly (shifts beyond the word size), so folders were wrongly omitted or indexed"),
 ("say so when a matching mbox has been emptied or removed", "C16", "matches in an mbox that was emptied or could not be mapped were left out without a word"),
 ("do not take a number in braces within a line for an IMAP literal", "C11", "a server notice such as '* OK mailbox is {92} percent full' desynchronised the IMAP parser, and every later message of the run was skipped"),
 ("report matches that could not be fetched from or put into an IMAP folder", "C11", "a search exited with success although IMAP matches could not be fetched, copied or appended, or the IMAP match folder not cleared"),
 ("do not send a backslash to an IMAP server in a quoted string", "C11", "a password or IMAP folder name with a backslash was sent wrongly, so login failed"),
 ("do not wait again and again for an IMAP server that has stopped answering", "C11", "a stalled server was waited for 40 seconds per message"),
 ("honour MAIRIX_MAILDIR_FOLDERS (the variable read was misspelt)", "C13", "setting MAIRIX_MAILDIR_FOLDERS made mairix index no maildir folder at all"),
 ("decode uuencoded bodies line by line, within the input", "C01", "x-uuencode parts were decoded to garbage (the newline was taken as a line length), overflowing the output buffer"),
 ("do not read beyond the end of a quoted-printable body", "C10", "a quoted-printable body ending in '=' was read beyond its end"),
 ("do not append an RFC2231 filename*= to a plain filename=", "C01", "an attachment named both by filename= and filename*= was indexed under the two names run together"),
 ("match the name= parameter of Content-Type case-insensitively", "C01", "an attachment named by Content-Type NAME= was not found by its name"),
 ("initialise date and flags of a misformatted mbox message", "C14", "a message of an mbox whose headers cannot be parsed had random flags and date"),
 ("accept a one-character domain in an mbox From_ line", "C01", "a message of an mbox whose From_ line has a sender in a domain of one character (From joe@h ...) was taken for a part of the message before it"),
 ("end an IMAP message in an mbox match folder with an empty line", "C04", "an IMAP message without a final newline was followed in an mbox match folder by the next From_ line without an empty line between them"),
 ("sort by date also when the dates are decades apart", "C04", "with sort=date+ one message without a usable date, or 68 years away from the others, put other messages out of order"),
 ("show the right date in excerpts east of Greenwich", "C04", "-x showed the day before the one of the Date: header wherever local time is ahead of UTC"),
 ("exit with a failure status when a matched message cannot be read", "C04", "a match that could not be read (I/O error, out of descriptors or memory) was left out of an mbox match folder or shown without its headers by -x, and a match in an mbox was left out of any match folder, with a successful exit"),
 ("size limits of 2 Gb and more", "C14", "z:522-3066m and the like matched nothing, because the limits were kept in 32 bit signed numbers"),
 ("empty, 8-bit and backslashed quoted strings in MIME headers", "C01", "a Content-Type with an empty parameter (charset=\"\") or a raw 8-bit or backslashed file name was ignored as a whole, so a multipart message was not taken apart and an attachment not found by its name"),
 ("RFC 2231 language tags, and values in more than ten pieces", "C01", "an attachment name with a language tag (iso-8859-1'en'x), in more than ten encoded pieces, or in pieces after a plain filename= was not found"),
 ("comments, empty parameters and blanks before the = in MIME headers", "C01", "a MIME header with a trailing comment, an empty parameter (;;), a parameter name with a dot or a blank before the = was ignored as a whole or lost the parameter"),
 ("attachment names containing backslashes", "C01", "an attachment name with an escaped quote or backslash was cut off in front of it"),
 ("white space after a MIME boundary", "C01", "parts of a multipart message whose boundary lines end in white space (allowed by RFC 2046) were not indexed"),
 ("index the last part of a multipart message that lacks its end boundary", "C01", "the last part of a multipart without an end boundary (also of one within another) was not indexed"),
 ("ignore white space between adjacent RFC 2047 encoded-words", "C01", "a word split over two adjacent encoded-words of a header (as mailers do with long subjects) was indexed as two pieces and not found"),
]
try:
    more = os.path.join(V, "tools", "findings_more.py")
    if os.path.exists(more): exec(open(more).read())
except NameError: pass
log = subprocess.run(["git", "-C", os.environ.get("MXREPO","/repo"), "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
subj = {l.split(" ", 1)[1]: l.split()[0] for l in log}
out = []
for s, p, w in F:
    h = subj["fix: " + s]
    out.append(dict(property=p, status="fixed", what="fixed: property=%s %s %s" % (p, h, w)))
missing = [s for s in subj if s.startswith("fix: ") and s[5:] not in [x[0] for x in F]]
assert not missing, missing
KNOWN = globals().get("KNOWN", [])
out += KNOWN
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for d in out: f.write(json.dumps(d) + "\n")
