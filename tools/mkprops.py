#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

GGS="genex/group/GlobalGroupSpace.cpp"; LGS="genex/group/LocalLengthGroupSpace.cpp"; GRP="genex/group/Group.hpp"
GTS="genex/GroupableTimeSeriesSet.cpp"; API="genex/GenexAPI.cpp"; TSS="genex/TimeSeriesSet.cpp"; IO="genex/IO.hpp"
POOL="genex/lib/ThreadPool.hpp"; DH="genex/distance/Distance.hpp"; DC="genex/distance/Distance.cpp"; TS="genex/TimeSeries.cpp"
PAA="genex/PAAWrapper.cpp"; CLI="cli/GenexCLI.cpp"

prop("C01","Multi-threaded grouping gives the single-threaded groups on every schedule",
 "Grouping a dataset with any number of threads returns, whatever the interleaving of the workers, the same group count and the same groups (representatives and members) as grouping it with one thread. The call always returns, and when it returns no worker it started is still running. This holds for every distance, threshold, whole-series choice and for repeated grouping of the same dataset.",
 ["schedules","inputs","configurations"],"all interleavings of the worker threads and the caller, all thread counts, datasets and grouping parameters",
 "The tests run one fixed dataset on whatever schedule the OS happens to give, so they see one interleaving of one input; lost tasks, missed wake-ups or mixed-up results on a rare interleaving stay invisible.",
 [GGS,LGS,POOL,GTS],[("one task per length, futures summed by the caller",GGS+" groupMultiThreaded"),("queue mutex, condition variable and drain-then-join shutdown",POOL)],
 ["GenexAPI::groupDataset return value","GenexAPI::saveGroupsOld dump","GenexAPI::getDatasetInfo"])
prop("C02","Grouping partitions all subsequences within the similarity bound",
 "After any successful grouping, and after any successful reload of saved groups, every subsequence of length two or more (only the whole-length ones in whole-series mode) belongs to exactly one group of its own length, and the reported group count is the number of groups. Every member other than the representative itself lies within half the threshold of its group's representative under the chosen distance. For the Euclidean, Manhattan and Chebyshev distances no two representatives of one length lie within that bound of each other.",
 ["inputs","schedules","histories","configurations"],"all datasets (even or uneven rows, ties, constants), thresholds, distances, thread counts and schedules, and all earlier operations in the session",
 "The tests check group counts and a few members on two small datasets; coverage, uniqueness and the bound over all subsequences, schedules and regrouping histories are never checked.",
 [LGS,GRP,GGS],[("greedy assignment to the nearest representative",LGS+" generateGroups"),("membership chain shared by all groups of one length",GRP+" addMember")],
 ["GenexAPI::saveGroupsOld dump","GenexAPI::getTimeSeries"])
prop("C03","A grouping that cannot be completed fails cleanly",
 "If anything grouping needs fails at any point (an allocation in the caller or in a worker, the start of a thread, an unknown distance, an invalid thread count), the grouping call reports an error to its caller instead of hanging or terminating the process, and no worker is left running. The dataset is then exactly as before the call: it keeps its earlier groups complete and usable, or stays ungrouped. Once the fault is gone, grouping the same dataset succeeds with the normal result.",
 ["fault_sequences","schedules"],"every position of an allocation or thread-start failure inside a grouping call, every invalid argument, every schedule of the workers around the failure",
 "No test makes an allocation or a thread start fail, and the tests with an unknown distance or bad thread count do not look at the state left behind.",
 [GTS,GGS,POOL,API],[("exception of a worker carried to the caller by the future",GGS+" groupMultiThreaded"),("pool shutdown drains and joins",POOL),("previous groups replaced only by a finished grouping",GTS+" groupAllLengths")],
 ["GenexAPI::groupDataset outcome","GenexAPI::getDatasetInfo","GenexAPI::saveGroupsOld dump","simulated thread table"])
prop("C04","Grouping does not depend on the clock",
 "For every behaviour of the system clock (any start value, standing still, jumping forwards or backwards by any amount between or during grouping calls) grouping completes and produces the same groups and the same count. The clock may only influence progress messages.",
 ["fault_sequences","inputs","configurations"],"all sequences of clock values seen by the grouping code, all datasets and thread counts",
 "Tests finish in milliseconds of real time, so the progress branch that needs ten seconds since the last report never runs, and no test moves the clock.",
 [LGS],[("progress report driven by a shared last-report time",LGS+" generateGroups")],
 ["GenexAPI::groupDataset outcome and groups dump under a simulated clock"])
prop("C05","Saved groups are restored exactly",
 "After groups were saved successfully, loading that file for the same dataset, in the same or in another process, returns the same group count and restores the same groups, distance and threshold, and the same queries then report the same distances. This also holds for whole-series groupings, for uneven datasets, for files saved again after having been loaded, and when reads and writes are split or interrupted by the operating system.",
 ["inputs","histories","fault_sequences","configurations"],"all grouped datasets and parameters, all chains of save, load, regroup and save again, all ways the operating system splits or interrupts reads and writes",
 "One round trip of one dataset is tested; whole-series groupings, saving after loading, chains and short or interrupted I/O are not.",
 [IO,GGS.replace(".cpp",".hpp"),GRP,"genex/GroupableTimeSeriesSet.hpp","genex/group/LocalLengthGroupSpace.hpp"],
 [("compressed binary archive of lengths, distance, threshold, groups and members",IO),("save/load pair of each layer","genex/group/*.hpp")],
 ["GenexAPI::saveGroups / loadGroups","GenexAPI::saveGroupsOld dump","GenexAPI::getDatasetInfo","query results"])
prop("C06","A save that reports success has written the complete file",
 "When saving groups, exporting groups or group sizes as text, or saving a dataset returns without an error, the target file holds the complete content. If any open, write or close fails or the disk fills up at any point, the call reports an error, it returns in bounded time, and the data in memory is unaffected. Once the fault is gone, the same save succeeds.",
 ["fault_sequences","inputs"],"every position and kind of open, write and close failure, every amount of free disk space, every save operation and dataset",
 "Tests only write to a healthy disk, so the error paths of the streams are never taken.",
 [IO,GTS,TSS],[("stream state after writing",IO+" saveToFile"),("stream state after writing",GTS+" saveGroupsOld"),("stream state after writing",TSS+" saveData")],
 ["call outcome and bytes on the simulated disk"])
prop("C07","A damaged group file is never taken for a good one",
 "Loading a group file that was truncated, torn by a crash in the middle of saving, altered on disk or only partly readable either reports an error or restores exactly the groups that were saved, and a file saved for a dataset with another number of series or another greatest length is refused. A text export of groups has no checksum: altered or cut off, it is refused or yields groups that contain every existing subsequence exactly once. Loading never crashes, hangs or corrupts memory, and a reported error leaves the dataset and its current groups as they were.",
 ["crash_points","fault_sequences","inputs"],"every crash point while saving, every truncation point, every altered stored byte, every read failure, every mismatched dataset",
 "Tests load only files they have just written completely, plus one mismatched file; no damaged file is ever loaded.",
 [IO,"genex/GroupableTimeSeriesSet.hpp",GGS.replace(".cpp",".hpp"),GRP],[("checksum of the compressed stream",IO+" loadFromFile"),("dataset dimensions stored in the file","genex/GroupableTimeSeriesSet.hpp load"),("groups replaced only after a complete load","genex/GroupableTimeSeriesSet.hpp load")],
 ["GenexAPI::loadGroups and loadGroupsOld outcome","GenexAPI::saveGroupsOld dump before and after"])
prop("C08","A failed operation changes nothing in memory",
 "When any session operation fails for any reason (bad argument, unknown name, unreadable or malformed file, I/O error, failed allocation), every loaded dataset keeps its values, names, lengths, normalization state, groups and approximation state exactly as before the call, and no dataset appears or disappears. Later operations behave as if the failed one had never been issued.",
 ["fault_sequences","histories","inputs"],"every operation, every failure cause and position, every earlier history",
 "Tests check that some bad calls throw, but not what they leave behind, and no test injects failures in the middle of an operation.",
 [API,GTS,TSS,PAA],[("name check before any change",API+" _checkDatasetName"),("dataset registered only after a complete load",API+" loadDataset"),("groups replaced only by complete new ones",GTS)],
 ["all read operations of GenexAPI before and after the failed call"])
prop("C09","Loading a dataset is all or nothing",
 "Loading a dataset either succeeds with exactly the rows, values, lengths and names stored in the file (within the requested row limit and columns) or reports an error and leaves the name free. This holds for every way the operating system splits, interrupts or fails the opening, reading and repositioning of the file, and a retry after the fault is gone succeeds.",
 ["fault_sequences","inputs"],"every position and kind of read, seek and open failure or short read, every file content and load option",
 "Tests read healthy files in one go; no test makes a read fail or return fewer bytes than asked for.",
 [TSS,API],[("read error check after the parsing loop",TSS+" loadData"),("row and column scan before the parsing pass",TSS+" _getMaxRowsMaxColumns")],
 ["GenexAPI::loadDataset outcome","GenexAPI::getTimeSeries / getTimeSeriesName / getTimeSeriesLength / getDatasetInfo"])
prop("C10","A saved dataset loads back as the same dataset",
 "After a dataset has been saved successfully, loading the file with the same separator (and the name column if it had names) gives the same number of series in the same order, with the same names, lengths and values to six significant digits. This holds for every dataset a session can hold, including normalized and uneven ones, in every order of saving, reloading and saving again, and saving does not change the dataset in memory.",
 ["inputs","histories","fault_sequences"],"all datasets and separators, all chains of load, normalize, save and reload, all ways the operating system splits reads and writes",
 "No test saves a dataset at all.",
 [TSS,API],[("row-wise text output with trailing separator",TSS+" saveData"),("tokenizer-based input",TSS+" loadData")],
 ["GenexAPI::saveDataset, loadDataset and the read operations"])
prop("C11","The session's books are right after every history",
 "After any sequence of operations, failed ones included, the session lists exactly the datasets that were loaded and not unloaded, with the right count, sizes, names, normalization flag, grouping flag, distance and threshold, and the values in each dataset are those of its file with the normalization applied to it. Operations on one dataset never affect another, an unloaded name is free and knows nothing of its former dataset, and every request naming an unknown dataset or series is refused.",
 ["histories","fault_sequences","inputs"],"all sequences of load, unload, normalize, group, save, load groups, prepare, query and query-information operations with failures in between",
 "Tests run short fixed sequences on fresh sessions; interleaved datasets, reuse of names and failures in the middle are not covered.",
 [API,GTS,TSS,PAA],[("name to dataset map and counter",API),("name to approximation map",API+" preparePAA / unloadDataset")],
 ["GenexAPI::getAllDatasetInfo, getDatasetInfo, getDatasetCount, getTimeSeries, getTimeSeriesName, getTimeSeriesLength, getKBestMatchesPAA"])
prop("C12","Answers depend on the current data only, not on the history",
 "A distance, matching or similarity query gives the answer that a fresh session holding the same data, normalization, groups, approximation and warping band gives, whatever was asked, grouped, prepared, unloaded, reloaded or has failed before. The work a query does and the memory it leaves behind do not grow with the number of earlier queries.",
 ["histories","fault_sequences"],"all histories of earlier queries, band changes, regroupings, normalizations, unloads and reloads, with failures in between",
 "Each test asks a handful of questions in one fixed order; caches and process-wide state that leak from one query into the next are not compared with a fresh session.",
 [DH,DC,TS,API,PAA,GGS],[("envelope cache of a series and its invalidation",TS+" getKeoghLower"),("process-wide dummy matching and metric objects",DC),("approximation state per dataset",PAA)],
 ["all query operations of GenexAPI"])
prop("C13","Every query answer is genuine",
 "Every entry a similarity query returns names an existing subsequence of the target dataset, and its reported distance is the one the distance query reports for that pair (for the approximate search, for the block averages of that pair). A k-query returns at most k entries, without repetition and ordered by distance, and it returns fewer than k only when fewer candidates exist. A best-match query without any candidate and a k-query with a non-positive k are refused with an error; no query crashes or invents an entry.",
 ["histories","inputs","configurations"],"all loaded datasets and groupings, however they came about (grouped on any schedule, reloaded, regrouped), all queries, k, exploration sizes and warping bands",
 "Tests ask for at most as many matches as exist and for queries inside the dataset's length range; the other cases and reloaded or regrouped states are not covered.",
 [GGS,LGS,"genex/group/Group.cpp",GTS,TSS,PAA],[("group-level and member-level heaps of the k-search",LGS+" interLevelKSim / Group::intraGroupKSim"),("traverse order over lengths within the band",GGS+" generateTraverseOrder")],
 ["GenexAPI::getBestMatch, getKBestMatches, getKBestMatchesBruteForce, getKBestMatchesPAA, distanceBetween"])
prop("C14","Everything a session acquires is given back",
 "Repeating any sequence of operations, including ones that fail at any point, does not accumulate memory, open files or threads: after the datasets are unloaded the process holds what it held after the first repetition. Nothing is released twice or used after release.",
 ["histories","fault_sequences","schedules"],"all operation sequences with failures of allocations, I/O and thread starts at any point, on all schedules",
 "Tests never look at resources; leaks on error paths and releases of dropped state need injected failures and repeated histories to show.",
 [API,GTS,GGS,LGS,PAA,DH,TSS,POOL],[("owning raw pointers released in reset/destructors","genex/"),("distance state released per cell",DH+" warpedDistance")],
 ["simulated heap, descriptor table and thread table"])
prop("C15","Grouping workers never race",
 "On no schedule do two threads of a grouping call access the same memory at the same time without synchronization when at least one of them writes.",
 ["schedules","inputs","configurations"],"all interleavings of workers and caller, all distances, thread counts and datasets",
 "A race needs a particular interleaving to do harm and usually none of the tests' schedules shows it; the tests use one distance with threads.",
 [GGS,LGS,POOL,DH,DC],[("disjoint per-length state",GGS+" _group"),("atomic last-report time",LGS),("shared metric objects",DH)],
 ["happens-before tracking of every memory access of the grouping code"])
prop("C16","A failing command never takes the command-line session down",
 "In the command-line program every failing command (bad arguments, unknown names, unreadable or unwritable files, failed allocations or threads) prints an error and the session goes on with its state unchanged, and no command prints its success message unless it had its effect. End of input asks for confirmation and ends the program normally when confirmed or when input ends again; the session ends for no other reason than that or an exit command.",
 ["histories","fault_sequences","inputs"],"all command scripts, all positions of end of input, all failures injected into the commands",
 "The command-line program has no tests at all.",
 [CLI,"cli/Command.hpp",API],[("exception handlers around each command",CLI+" main"),("argument count checks",CLI+" tooFewArgs / tooManyArgs")],
 ["standard output of the command-line program fed by a simulated terminal"])
prop("C17","Independent sessions on different threads do not disturb each other",
 "Two or more sessions, each used by its own thread on its own datasets with the same warping band, give on every interleaving the results each gives alone. Their operations never race and never crash.",
 ["schedules","histories","inputs"],"all interleavings of operations of independent sessions",
 "The tests are single-threaded outside grouping, so process-wide state shared by sessions is never contended.",
 [DC,DH,"genex/group/Group.cpp",TS],[("process-wide distance registry, metric objects and dummy matching",DC),("process-wide counters",TS)],
 ["results of concurrently running sessions compared with each run alone"])

pure="Pure function of its arguments: every value can be checked directly on inputs, there is no schedule, clock, I/O or history in it."
prop("C20","Distances match their definitions",
 "Each named distance and its warped variant returns the value of its mathematical definition under the current warping band.",
 ["inputs"],"all pairs of series, distances and bands",
 "Tests check a dozen hand-computed values.",
 [DH,"genex/distance/Euclidean.hpp","genex/distance/Manhattan.hpp","genex/distance/Chebyshev.hpp","genex/distance/Cosine.hpp","genex/distance/Sorensen.hpp"],[("dynamic program over the band",DH+" warpedDistance")],
 ["GenexAPI::distanceBetween"])
prop("C21","Lower bounds and early abandoning never change an answer",
 "Pruning by lower bounds or by early abandoning never discards a candidate that is better than the best one found so far.",
 ["inputs"],"all pairs of series, bands and drop-out values",
 "Tests check single values of one lower bound.",
 [DC,"genex/lib/trillionDTW.cpp"],[("cascade of lower bounds",DC+" cascadeDistance")],
 ["GenexAPI::getBestMatch"])
prop("C22","A matching is an optimal warping path",
 "The matching between two series is a monotone path from the first to the last pair of points inside the warping band whose cost is the warped distance.",
 ["inputs"],"all pairs of series, warped distances and bands",
 "Tests check a few hand-computed paths with an unconstrained band.",
 [DH],[("backtrace through the cost matrix",DH+" warpedDistance")],
 ["GenexAPI::matchingBetween"])
prop("C23","Exhaustive search is exact",
 "The exhaustive k-search returns k subsequences with the k smallest warped distances to the query.",
 ["inputs"],"all datasets, queries, k and distances",
 "One test with k = 1.",
 [TSS],[("bounded heap over all subsequences",TSS+" getKBestMatchesBruteForce")],
 ["GenexAPI::getKBestMatchesBruteForce"])
prop("C24","Normalization maps the value range onto the unit interval",
 "Normalizing maps the smallest value of the dataset to zero and the largest to one, linearly in between, and returns the former range.",
 ["inputs"],"all datasets",
 "Three fixed datasets are tested.",
 [TSS],[("min-max scan and scaling",TSS+" normalize")],
 ["GenexAPI::normalizeDataset"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
