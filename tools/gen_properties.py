#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept so that the list is easy to edit."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L = "pw_diff_lib/src/"
p("C01", "The edit script between two inputs is complete and true",
  "For any two inputs, text or binary, the computed list of changes covers both inputs completely, in order and without gap or overlap, and unchanged and changed stretches alternate. Every stretch reported as unchanged really is identical in both inputs, so replaying the list over the first input rebuilds the second, and the other way round. Equal inputs give no change at all.",
  ["inputs"], "every pair of inputs (line sequences with and without a final newline, byte sequences)",
  "Two doc-tests compare one pair of 13-line texts; which runs match, and what lies between them, differs for every pair of inputs.",
  [L+"changes.rs", L+"sequence.rs", L+"common_subsequence.rs"],
  [("ChangesGenerator::generate tiles the gaps between matched runs", L+"changes.rs:280"), ("longest_common_subsequences recursion, sort and merge", L+"changes.rs:212"), ("content indices", L+"sequence.rs:98")],
  ["Changes::<String>::new", "Changes::<u8>::new", "Changes.changes"])
p("C02", "The longest common run query is exact, and replaced regions share nothing",
  "Asked for the longest run common to a window of one input and a window of another, the engine returns a run that lies inside both windows, is identical in both, and than which there is no longer one; it returns nothing exactly when the windows share no item. Consequently the two sides of a replacement in the edit script have no item in common.",
  ["inputs"], "every pair of inputs and every pair of windows within them, text and bytes",
  "One doc-test asks for one run in two whole inputs; proper sub-windows, repeated items and ties are never asked for.",
  [L+"changes.rs", L+"sequence.rs"],
  [("dynamic programme over the index of the first input", L+"changes.rs:140"), ("window limits on j", L+"changes.rs:150"), ("extension of the best run", L+"changes.rs:165")],
  ["ChangesGenerator::longest_common_subsequence"])
p("C03", "Changes are grouped into clumps exactly as the context size asks",
  "Grouping an edit script with context c puts every change into exactly one clump, in order, with min(c, available) unchanged items before the first and after the last change of the clump. Two neighbouring changes are in different clumps exactly when at least 2c unchanged items separate them, so that clumps never overlap. Inputs without a difference give no clump.",
  ["inputs", "configurations"], "every edit script and every context size 0..255",
  "One doc-test groups one script with context 2; other contexts (0, larger than the file, 128..255) and gap lengths around 2c are not exercised.",
  [L+"changes.rs", L+"common_subsequence.rs"],
  [("ChangeClumpIter::next with its stash", L+"changes.rs:468"), ("split / starts_trimmed / ends_trimmed", L+"common_subsequence.rs:63")],
  ["Changes::change_clumps"], [("stash", "tail of a split unchanged run, becomes the next clump's leading context", L+"changes.rs:468")])
p("C04", "Clump positions, lengths and context counts agree from every view",
  "For every change and every clump, in memory or as stored in a patch, the start, end, length and range reported for the before side and for the after side, in the forward and in the reversed view, describe exactly the items the clump covers on that side. The reversed before view equals the forward after view, and the reported context lengths are the numbers of shared leading and trailing items.",
  ["inputs", "configurations"], "every pair of inputs, context size and direction",
  "The tests use these views only indirectly, on two or three clumps, and mostly in one direction.",
  [L+"changes.rs", L+"text_diff.rs", L+"snippet.rs"],
  [("ChangeBasics default methods", L+"changes.rs:22"), ("impl ChangeBasics for ChangeClump", L+"changes.rs:378"), ("impl ChangeBasics for TextChangeClump", L+"text_diff.rs:33"), ("ChangeClump::ranges / context_lengths", L+"changes.rs:425")],
  ["ChangeBasics methods of Change, ChangeClump, TextChangeClump"])
p("C05", "Text patch forward round trip",
  "A patch made from any two texts with any context size, applied to the first text, yields exactly the second text, byte for byte including the presence or absence of a final newline. Every clump is reported as applied cleanly.",
  ["inputs", "configurations"], "every pair of texts and every context size",
  "The tests apply five hand-made pairs with context 2.",
  [L+"changes.rs", L+"apply_text.rs", L+"text_diff.rs", L+"snippet.rs", L+"sequence.rs"],
  [("ApplyClumpsFuzzy::apply_into", L+"apply_text.rs:282"), ("ApplyClumpFuzzy::apply_into", L+"apply_text.rs:153"), ("From<ChangeClump> for TextChangeClump", L+"text_diff.rs:21")],
  ["output of apply_into(reverse = false)", "Statistics"])
p("C06", "Text patch reverse round trip",
  "A patch made from any two texts with any context size, applied in reverse to the second text, yields exactly the first text, byte for byte. Every clump is reported as applied cleanly, and applying a patch forward and then in reverse restores the file.",
  ["inputs", "configurations"], "every pair of texts and every context size",
  "One test reverses one pair with context 2.",
  [L+"apply_text.rs", L+"text_diff.rs", L+"changes.rs"],
  [("reverse flag in ChangeBasics / TextClumpBasics", L+"text_diff.rs:33"), ("ApplyClumpsFuzzy::apply_into", L+"apply_text.rs:282")],
  ["output of apply_into(reverse = true)"])
p("C07", "Binary patch round trip",
  "A patch made from any two byte sequences with any context size, applied to the first, yields exactly the second; applied in reverse to the second, it yields exactly the first. This includes empty inputs and changes at the very start and end.",
  ["inputs", "configurations"], "every pair of byte sequences and every context size",
  "No test touches binary patches at all.",
  [L+"apply_bytes.rs", L+"byte_diff.rs", L+"sequence.rs", L+"changes.rs"],
  [("ApplyClumpsClean::apply_into", L+"apply_bytes.rs:37"), ("Seq::has_subsequence_at", L+"sequence.rs:31"), ("ByteChangeClump apply_into", L+"byte_diff.rs:68")],
  ["output of ByteChangeDiff::apply_into"])
p("C08", "Applying a text patch to any file never damages what the patch does not touch",
  "Whatever file a text patch is applied to, in either direction, the result is that file with some disjoint, in-order regions replaced, each of which held exactly the lines the clump expects there (up to ignored outer context lines, which are kept as they are in the file) and each replaced by that clump's new lines, plus one conflict block per failed clump. Every other line of the file appears exactly once, unchanged and in its original order. This also holds for patches whose clumps overlap, are out of order or are partly applied already.",
  ["inputs", "histories"], "every patch (generated or hand-edited), every file it is applied to, both directions",
  "The tests apply patches to the original, the result, or the original with three lines put in front; modified, shorter, partly patched or repetitive files are not tried.",
  [L+"apply_text.rs", L+"sequence.rs", L+"text_diff.rs"],
  [("write_into_upto / advance_consumed_by keep the cursor", L+"sequence.rs:238"), ("before_write_into restricted by reductions", L+"apply_text.rs:73"), ("search limits in will_apply_nearby", L+"apply_text.rs:168")],
  ["output of ApplyClumpsFuzzy::apply_into"],
  [("consumed", "number of patchable lines already written or replaced", L+"sequence.rs:208"), ("offset", "running displacement of clumps", L+"apply_text.rs:311")])
p("C09", "The report of a text patch run is truthful",
  "Applying a text patch counts every clump exactly once, as clean, fuzzy, already applied, already applied fuzzily, or failed, and the counts describe what was done to the file. A clump is called clean only if all the lines it expects were found at its expected place, and called failed only if they are not there; each failed clump leaves in the output one conflict block holding the lines it expected and the lines it would have written.",
  ["inputs", "histories"], "every patch, every file, both directions",
  "The tests look at the counts for about eight hand-made cases.",
  [L+"apply_text.rs"],
  [("stats updates in ApplyClumpsFuzzy::apply_into", L+"apply_text.rs:299"), ("write_failure_data_into", L+"apply_text.rs:250")],
  ["Statistics returned by apply_into", "conflict blocks in the output"])
p("C10", "Applying a patch never crashes or hangs",
  "Applying any well-formed text or binary patch to any file, however short, empty or unrelated, in either direction, and asking whether it is already applied, ends with a result: no crash, no arithmetic overflow, no endless search.",
  ["inputs", "histories"], "every patch, every file, every context size, both directions",
  "The tests only use files at least as long as the patch expects.",
  [L+"apply_text.rs", L+"apply_bytes.rs", L+"sequence.rs"],
  [("search bound not_after", L+"apply_text.rs:176"), ("adjusted start / length arithmetic", L+"apply_text.rs:20"), ("write_remainder", L+"sequence.rs:255")],
  ["termination of apply_into, is_already_applied, already_applied"])
p("C11", "A displaced clump is found",
  "If the lines a clump expects, with their full context, are no longer at their expected place but occur further up or down in the part of the file not yet patched, the clump is applied there rather than reported as failed; if they occur at several places the nearest is taken. This holds for displacements of any size for the last clump of a patch, and for an earlier clump whenever the displacement is smaller than the number of lines between it and the next clump; the clumps after it follow the same displacement.",
  ["inputs"], "every text patch and every file that differs from the original by lines added or removed outside the patched regions",
  "The tests displace two patches by three lines, downwards only.",
  [L+"apply_text.rs"],
  [("will_apply_nearby", L+"apply_text.rs:168"), ("offset accumulation", L+"apply_text.rs:311")],
  ["output and Statistics of apply_into", "will_apply_nearby"])
p("C12", "Changed outer context lines do not stop a clump and are kept",
  "If the file differs from what a clump expects only in the outermost lines of its context, in fewer of them than the larger of its two context lengths, the clump still applies at its place, by ignoring as few outer context lines as necessary (the same number on each side, as far as that side has context). The file's own versions of the ignored lines are kept, and the clump is reported as fuzzy.",
  ["inputs", "configurations"], "every text patch with context of at least 2, every way of changing outer context lines",
  "The unit tests check the decision for one clump; no test writes the result of such an application.",
  [L+"apply_text.rs"],
  [("reduction loop in will_apply", L+"apply_text.rs:101"), ("before_write_into with reductions", L+"apply_text.rs:73"), ("my_before_range", L+"changes.rs:40")],
  ["will_apply", "output and Statistics of apply_into"])
p("C13", "An already applied text patch is recognised and left alone",
  "Every patch made from two texts is reported as already applied to the second text, and its reversal as already applied to the first. It is reported as already applied only to a file in which the result lines of every clump (up to ignored outer context) are really present. When the lines a patch expects are nowhere in the file but its result lines are at their places, applying it leaves the file exactly as it is and counts every clump as already applied.",
  ["inputs"], "every patch and every file",
  "One test asks three questions about one patch.",
  [L+"apply_text.rs"],
  [("is_already_applied", L+"apply_text.rs:377"), ("already_applied_into", L+"apply_text.rs:237")],
  ["ApplyClumpsFuzzy::is_already_applied", "output and Statistics of apply_into"])
p("C14", "Applying a binary patch to any data changes only the bytes it recorded",
  "Whatever data a binary patch is applied to, in either direction, the result is the data with disjoint, in-order regions replaced, each region being at the recorded position, holding exactly the recorded old bytes, and replaced by the recorded new bytes; all other bytes are kept. A clump whose recorded bytes are at its position, clear of earlier replacements, is applied; the patch is reported as already applied exactly when the new bytes of every clump are at their positions.",
  ["inputs", "histories"], "every binary patch (generated or hand-edited) and every byte sequence, both directions",
  "No test touches binary patches.",
  [L+"apply_bytes.rs", L+"byte_diff.rs", L+"sequence.rs"],
  [("will_apply / is_already_applied by has_subsequence_at", L+"byte_diff.rs:54"), ("write_into_upto / advance_consumed_by", L+"sequence.rs:238")],
  ["output of ByteChangeDiff::apply_into", "ByteChangeDiff::already_applied"],
  [("consumed", "number of bytes already written or replaced", L+"sequence.rs:208")])
p("C15", "A patch survives being written and read back",
  "Any patch of any kind (text or binary; change, addition or removal), written out and read back, has the same kind, the same paths and the same effect on every file, forward and reverse, and writes out identically again. This holds for every content: all byte values, control characters, quotes, non-ASCII text, missing final newlines, empty files.",
  ["inputs"], "every patch of every kind and every content",
  "No test serialises a patch.",
  [L+"diff.rs", L+"text_diff.rs", L+"byte_diff.rs", L+"snippet.rs"],
  [("serde derives of Diff and its parts", L+"diff.rs:12"), ("to_writer / from_reader", L+"diff.rs:72")],
  ["Diff::to_writer", "Diff::from_reader"])
p("C16", "The kind of patch follows from the two files",
  "Comparing two paths gives a change if both files exist, a removal if only the first does, an addition (naming the first path) if only the second does, and an error if neither does. The patch is a text patch exactly when every file involved is valid UTF-8, and a binary patch otherwise; additions and removals carry the whole content.",
  ["configurations", "inputs"], "every combination of missing, empty, text and binary files",
  "No test builds a patch from files.",
  [L+"diff.rs", L+"text_diff.rs", L+"byte_diff.rs"],
  [("Diff::new", L+"diff.rs:31"), ("PathAndLines::new / PathAndBytes::new", L+"text_diff.rs:141")],
  ["Diff::new"])
p("C17", "Command line round trip",
  "For any two files or missing file, patching the first path with the output of the diff command makes it exactly like the second (created, in a directory that exists, changed or deleted as needed), and patching in reverse restores it exactly; both commands exit with status 0. This holds for text and binary content and for every context size.",
  ["inputs", "configurations"], "every pair of file states and contents, every context size",
  "No test runs either program.",
  ["pw_diff/src/main.rs", "pw_patch/src/main.rs", L+"diff.rs"],
  [("main of pw_diff", "pw_diff/src/main.rs:39"), ("main of pw_patch, one arm per kind", "pw_patch/src/main.rs:51")],
  ["file tree and exit status after pw_diff / pw_patch"])
p("C18", "Patching a file in place is all or nothing under faults and crashes",
  "When changing an existing file, the patch command never leaves it partly written: at every moment, if any system call fails, is cut short or is interrupted, or if the process is killed, the file holds either its complete old or its complete new content. The command exits with status 0 only if the new content is in place, and a run that fails leaves no temporary file behind.",
  ["crash_points", "fault_sequences"], "every system call of the run as a point of failure, short transfer, interruption or kill",
  "No test runs the program, let alone with injected failures.",
  ["pw_patch/src/main.rs", L+"apply_text.rs", L+"apply_bytes.rs", L+"sequence.rs"],
  [("write to temporary file then rename", "pw_patch/src/main.rs:84"), ("error arms with exit(1)", "pw_patch/src/main.rs:112")],
  ["target file, directory listing and exit status after a faulted run"])
p("C19", "Adding and removing files under faults is honest and never overwrites",
  "A patch that creates a file never changes a file that already exists at that path. Creating (or, reversed, removing) and removing (or, reversed, re-creating) exit with status 0 only if the file is completely in place or gone, whatever system call fails, is cut short or is interrupted.",
  ["fault_sequences", "crash_points", "configurations"], "every system call of the run as a point of failure or kill; target present or absent",
  "No test runs the program.",
  ["pw_patch/src/main.rs", L+"text_diff.rs", L+"byte_diff.rs"],
  [("File::create_new", "pw_patch/src/main.rs:141"), ("write_into of the stored content", L+"text_diff.rs:167")],
  ["target file and exit status after a faulted run"])
p("C20", "The diff command reports success only for a complete, correct patch",
  "The diff command never modifies its input files, and exits with status 0 only if the complete patch has been written to its output, whatever read or write fails, is cut short or is interrupted. Any output accompanied by status 0 is a patch that turns the first file into the second.",
  ["fault_sequences", "inputs"], "every system call of the run as a point of failure",
  "No test runs the program.",
  ["pw_diff/src/main.rs", L+"diff.rs"],
  [("to_writer to stdout and exit codes", "pw_diff/src/main.rs:47")],
  ["stdout content and exit status after a faulted run"])
p("C21", "A unified diff clump is parsed into the lines it stands for",
  "Parsing a clump of a unified diff yields exactly the before and after lines it describes, without their marker characters, with a line's newline removed exactly when it is marked as having none, the positions given by the header as counted from zero, the numbers of leading and trailing context lines, and the number of input lines used. Input that is not a clump header yields nothing; a body that contradicts its header, ends early or has a malformed line yields an error, never a crash.",
  ["inputs"], "every sequence of header and body lines",
  "Two tests check that two clumps are accepted or rejected, without looking at the result.",
  ["pw_cub_diff_lib/src/unified_diff.rs", "pw_cub_diff_lib/src/text_diff.rs"],
  [("UnifiedDiffClump::get_from_at", "pw_cub_diff_lib/src/unified_diff.rs:146"), ("impl ChangeBasics for UnifiedDiffClump", "pw_cub_diff_lib/src/unified_diff.rs:234")],
  ["UnifiedDiffClump::get_from_at", "ChangeBasics / TextClumpBasics of UnifiedDiffClump"])
p("C22", "Generated unified diff text is valid and means the same change",
  "For any two texts and any context size, every clump rendered as unified diff text is well formed: its header gives the 1-based positions and the line counts of its body, and every line lacking a newline is followed by a no-newline marker line of its own. The before and after lines it denotes are exactly the clump's lines of the two texts, and parsing it back yields the same clump.",
  ["inputs", "configurations"], "every pair of texts, with and without final newline, every context size",
  "No test renders unified diff text.",
  ["pw_cub_diff_lib/src/unified_diff.rs"],
  [("UnifiedClumpIter::next", "pw_cub_diff_lib/src/unified_diff.rs:309"), ("Display for StartsAndLengths", "pw_cub_diff_lib/src/unified_diff.rs:78")],
  ["UnifiedClumpIter"])
p("C23", "Unified diff header lines are read and written faithfully",
  "A clump header printed from any positions and lengths is read back as the same numbers, an omitted length means 1, and lines that are not clump headers are not taken for one; a number too large to represent is an error. From the two file header lines the path (quoted or not) and the timestamp, if there is one in either of the known forms, are recovered exactly.",
  ["inputs"], "every combination of header parts: numbers, separators, paths, timestamps, trailing text, line endings",
  "The tests feed two clump headers and check only that they are recognised.",
  ["pw_cub_diff_lib/src/unified_diff.rs", "pw_cub_diff_lib/src/lib.rs"],
  [("CLUMP_HEADER_REGEX", "pw_cub_diff_lib/src/unified_diff.rs:26"), ("BEFORE_PATH_REGEX / AFTER_PATH_REGEX", "pw_cub_diff_lib/src/unified_diff.rs:20")],
  ["starts_and_lengths", "before_path_and_time_stamp", "after_path_and_time_stamp"])
p("C24", "Reading and writing do not depend on how the data is transferred",
  "Reading a text or binary sequence gives the same items however the source delivers its bytes (any split into short reads, with interruptions), and equals splitting the whole content after each newline; nothing is lost or invented, and writing all items gives back the content. Writing patched output, stored content or sequences to a sink that takes any part of each write delivers the same bytes in order. A read or write error is returned to the caller, after which the sink holds only a prefix of the correct output.",
  ["fault_sequences", "inputs"], "every split of the transfer into parts, every position of an interruption or error",
  "The tests only write to an in-memory buffer that accepts everything.",
  [L+"sequence.rs", L+"text_diff.rs", L+"byte_diff.rs", L+"snippet.rs", L+"apply_text.rs"],
  [("Seq::read", L+"sequence.rs:50"), ("write_all in write_into of Seq, Snippet, PathAndLines, PathAndBytes", L+"sequence.rs:156")],
  ["Seq::read", "WriteDataInto", "SnippetWrite", "apply_into"])
p("C25", "The consuming cursor emits every item exactly once",
  "For every sequence of the cursor operations (write up to a position, skip a number of items, write the remainder), the items written are exactly those between the cursor and the requested position, in order, and the cursor ends at the larger of the two; requests for positions already passed write nothing. Written and skipped items together are the sequence, each item once.",
  ["histories", "inputs"], "every sequence of operations within the length of the underlying sequence",
  "The cursor is only used indirectly by the apply tests.",
  [L+"sequence.rs"],
  [("impl ConsumableSeqIfce for ConsumableSeq", L+"sequence.rs:208")],
  ["ConsumableSeq::write_into_upto, advance_consumed_by, write_remainder, consumed"],
  [("consumed", "cursor position", L+"sequence.rs:208")])
p("C26", "A patch that does not fully apply is not reported as success",
  "If any clump of a patch can neither be applied nor is already applied, the patch command exits with a status other than 0; if every clump was applied or was already applied, it exits with status 0. This holds for text and binary patches, in both directions.",
  ["inputs"], "every patch and every target file",
  "No test runs the program.",
  ["pw_patch/src/main.rs", L+"apply_text.rs", L+"apply_bytes.rs"],
  [("handling of the result of apply_into", "pw_patch/src/main.rs:112"), ("ApplyClumpsClean::apply_into", L+"apply_bytes.rs:37")],
  ["exit status of pw_patch"])
p("C27", "A malformed patch file is refused without touching anything",
  "Given a patch file that is not valid (truncated at any point, not a patch, missing or mistyping a part, or naming a target that is missing or, for a text patch, is not text), the patch command exits with a status other than 0 and neither changes the target nor leaves other files behind.",
  ["inputs"], "every truncation and every structural corruption of a patch file",
  "No test runs the program or reads a patch.",
  ["pw_patch/src/main.rs", L+"diff.rs"],
  [("Diff::from_reader error arm", "pw_patch/src/main.rs:51"), ("temporary file removed on unwinding", "pw_patch/src/main.rs:84")],
  ["file tree and exit status after pw_patch"])
p("C28", "Patching keeps the target's permissions and touches no other file",
  "Changing a file by a patch, forward or in reverse, leaves its permission bits as they were, whatever they are, and changes, creates or removes no other file in the working directory or beside the target, wherever the target is relative to the working directory.",
  ["configurations"], "all permission bit combinations, text and binary, both directions, several places of the target",
  "No test runs the program.",
  ["pw_patch/src/main.rs"],
  [("temporary file renamed over the target", "pw_patch/src/main.rs:101")],
  ["mode bits and directory listings after pw_patch"])
p("C29", "What the commands do depends only on the files and the arguments",
  "For the same files and the same arguments the diff command writes the same patch and the patch command has the same effect and exit status, whatever the verbosity, the environment variables, files that are neither given nor named by the patch, the times of the files, the clock, random numbers, the user, the number of the process, the host, the name of the program, standard input, standard error (a terminal, closed, full or a broken pipe included), the way in which the patch is given (a pipe or link included), and the way in which the target is named from the working directory. The context is that asked for, however the option is spelled, and two lines without one; a command line that makes no sense is refused with a status other than 0 and changes nothing. Comparing and applying, repeated in one process, give the same result whatever was computed in between.",
  ["configurations", "histories"], "all circumstances singly and in pairs, all context sizes, all pairs of short inputs computed twice",
  "No test runs the programs, and none computes anything twice.",
  ["pw_diff/src/main.rs", "pw_patch/src/main.rs", "pw_diff_lib/src/changes.rs", "pw_diff_lib/src/diff.rs"],
  [("command line of the diff command", "pw_diff/src/main.rs:14"), ("command line of the patch command", "pw_patch/src/main.rs:17"), ("context of a patch", "pw_diff_lib/src/diff.rs:31")],
  ["exit status, output and directory tree of both commands, compared with a run in the usual circumstances"])
p("C30", "Runs at the same time, and after one that was killed, do not disturb each other",
  "However the steps of two runs of the commands interleave: runs that change or create different files, in one directory or two, end as if each were alone, even if their process ids are equal (as in containers). A file changed by both holds at every moment its complete old content or the complete result of a patch, both report success, and at the end it is the result of one of the patches or of both. Of two runs that create one file, or remove it, exactly one succeeds, and a created file is that of the one that succeeded. A patch made from a file that is being changed is one for its old or for its new content. If one run is killed at any point, the other ends as it should, and a killed change can be repeated and then succeeds; nothing but a killed run leaves a temporary file.",
  ["schedules", "crash_points"], "all schedules of the system calls of two runs up to a number of preemptions, with a kill before any of them",
  "No test runs the programs, let alone two at a time.",
  ["pw_patch/src/main.rs", "pw_diff_lib/src/diff.rs"],
  [("temporary file and renaming", "pw_patch/src/main.rs:84"), ("exclusive creation", "pw_patch/src/main.rs:141")],
  ["contents of the files after every system call, exit statuses, directory tree"])
p("C31", "The report of a binary patch run is truthful",
  "Applying a binary patch, in either direction, counts every clump exactly once: as applied cleanly if its old bytes were replaced by its new bytes in the output, as already applied if it was not and its new bytes are at their position in the data, and as failed only if neither its new bytes are there nor could its old bytes be replaced. No clump of a binary patch is counted as fuzzy.",
  ["inputs", "histories"], "every binary patch (generated or hand-edited) and every byte sequence, both directions",
  "No test touches binary patches.",
  [L+"apply_bytes.rs"],
  [("stats updates in ApplyClumpsClean::apply_into", L+"apply_bytes.rs:41")],
  ["Statistics returned by ByteChangeDiff::apply_into, together with its output"])
p("C32", "A run that fails says so on standard error, and a run that succeeds says nothing",
  "Whenever one of the commands ends with an exit status other than 0, at any verbosity and whatever the cause (a command line it does not understand, a missing, unreadable or malformed file, a clump that does not apply, a system call that fails), it has written a message to standard error, if that can be written to. Messages never get into standard output: the patch command writes nothing there, and the diff command nothing but the patch. A run that succeeds writes nothing to standard error unless it is asked to be verbose.",
  ["inputs", "configurations", "crash_points"], "every outcome of both commands, every damage to a patch file, every failure of a system call, every verbosity",
  "No test runs the programs.",
  ["pw_patch/src/main.rs", "pw_diff/src/main.rs"],
  [("messages of the patch command", "pw_patch/src/main.rs:37"), ("messages of the diff command", "pw_diff/src/main.rs:33")],
  ["standard error, standard output and exit status of both commands"])
p("C33", "Independent patches can be applied, and taken back, in any order",
  "Take several patches made from one and the same original, each of which changes places of its own: separated from the places of the others by at least as many unchanged lines as the context, in an original whose lines are distinct, and shifting each other by no more than C11 promises to follow. Whichever of them have been applied, in whatever order: applying one that has not been applied makes exactly its own changes, with no clump failed; taking back (reversing) one that has been applied undoes exactly its own changes, with no clump failed; applying one again, or taking back one that has not been applied, changes nothing and reports every clump as already applied; and asking whether one is already applied gives the right answer. The same holds for binary patches that replace bytes by as many others, where nothing is shifted. In consequence the result depends only on which patches are applied, never on the order.",
  ["inputs", "histories"], "every set of patches from one original that change separate places, every history of applying them and taking them back",
  "No test applies a patch to a text that another patch has changed.",
  [L+"apply_text.rs", L+"apply_bytes.rs", L+"text_diff.rs", L+"changes.rs"],
  [("application with an offset", L+"apply_text.rs:299"), ("recognition of applied clumps", L+"apply_text.rs:328"), ("application of a binary patch", L+"apply_bytes.rs:32")],
  ["output and Statistics of apply_into, is_already_applied, exit status and file of the patch command"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
