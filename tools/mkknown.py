#!/usr/bin/env python3
# Writes the fixed entries of known-findings.txt with the commits of /repo (matched by subject).
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C04", "division by zero in the grouping progress log", "grouping a small space died of SIGFPE when the clock let the progress log come up"),
 ("C01", "division by zero in the grouping progress log", "grouping with several threads died of SIGFPE on small datasets"),
 ("C15", "data race on the lazily created distance metric", "workers raced on the creation of the shared metric object"),
 ("C03", "process termination when a worker thread cannot be started", "std::terminate when pthread_create failed for a later worker"),
 ("C03", "failed grouping drops the existing groups", "after a failed grouping the earlier groups were gone and the dataset was marked grouped with missing lengths"),
 ("C08", "failed grouping drops the existing groups", "a failed group operation changed the session"),
 ("C14", "group leaked when it cannot be added", "a group was lost when the vector could not grow"),
 ("C02", "uninitialised group index when no representative", "a series that compares with nothing was put into a random group"),
 ("C07", "failed loadGroups drops the existing groups", "a refused group file cost the dataset its current groups"),
 ("C08", "failed loadGroups drops the existing groups", "a failed loadGroups changed the session"),
 ("C14", "failed loadGroups drops the existing groups", "groups read before the error were leaked"),
 ("C05", "loaded whole-series groups cannot be saved again", "saving restored whole-series groups dereferenced missing length spaces"),
 ("C07", "loadGroups accepts files that do not fit", "files of other datasets were accepted and gave groups with members outside the data"),
 ("C06", "write errors and damaged files go unnoticed", "saveGroups returned normally on a full disk; out of memory inside the compressor chain crashed"),
 ("C07", "write errors and damaged files go unnoticed", "altered files were restored because the checksum at the end was never read"),
 ("C05", "text group files are neither written nor read safely", "text files lost the threshold and were read without any validation"),
 ("C02", "text group files are neither written nor read safely", "groups loaded from text reported a wrong threshold"),
 ("C06", "text group files are neither written nor read safely", "text exports ignored write errors"),
 ("C09", "read errors make loadDataset load only a part", "a read error in the middle looked like the end of the file"),
 ("C06", "saveDataset does not report write errors", "saveDataset returned normally on a full disk"),
 ("C09", "short rows and negative columns corrupt", "rows shorter than the start column got negative lengths"),
 ("C08", "loadDataset leaks or half registers", "out of memory while loading left a null dataset under the name"),
 ("C14", "loadDataset leaks or half registers", "the dataset was leaked when it could not be registered"),
 ("C12", "PAA data outlives the dataset", "a reloaded dataset answered approximate queries from the memory of the unloaded one"),
 ("C13", "PAA preparation reads beyond the dataset", "approximate search returned entries beyond short series and uninitialised averages"),
 ("C12", "every distance computation appends to a global matching", "each query did more work than the one before"),
 ("C14", "warped distances leak the cells", "cosine and sorensen leaked on every warped distance"),
 ("C13", "warped distance uses a cell outside of the warping band", "cosine on series with leading zeros dereferenced a null pointer"),
 ("C12", "stale lengths and envelopes after assigning", "an envelope of another series was used for pruning after an allocation failure"),
 ("C13", "queries without enough matches crash", "k-queries were filled up with entries that do not exist; queries longer than the dataset read out of bounds"),
 ("C11", "getTimeSeriesLength does not check the index", "an invalid index was accepted"),
 ("C17", "data races between independent sessions", "sessions raced on the map of distances and on a global counter"),
 ("C02", "normalizing a dataset keeps groups", "after normalizing, members were outside of the bound of their groups"),
 ("C13", "different parts of one time series compare equal", "two subsequences of one series counted as the same"),
 ("C05", "threshold loses digits in the text export", "groups restored from text reported a threshold rounded to six digits"),
 ("C16", "ksimBF ignores start and end", "ksimBF with one argument too many searched with another query and reported success"),
 ("C08", "queries crash when the queue for the envelope", "a query died of a null pointer when malloc failed while building an envelope"),
 ("C16", "command line dies when a line cannot be copied", "an allocation failure outside the try block ended the program; malloc'd lines were deleted"),
 ("C13", "queries with an empty time series crash", "a search for an empty series crashed or returned distances to a made up zero"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
old = []
path = os.path.join(ROOT, "known-findings.txt")
if os.path.exists(path): old = [l for l in open(path) if l.startswith("known:")]
out = ["# known: property=<id> kind=<kind of violation> match=<escaped text of its message> <what fails>   (suppresses exactly these)\n",
       "# fixed: property=<id> <commit in /repo> <what failed>                                              (suppresses nothing)\n"] + old
for p, sub, what in FIXED:
    c = [l.split()[0] for l in log if sub in l]
    assert len(c) == 1, (sub, c)
    out.append("fixed: property=%s %s %s\n" % (p, c[0], what))
open(path, "w").writelines(out)
