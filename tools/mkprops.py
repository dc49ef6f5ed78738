# Generates /verif/properties.jsonl (the property list is maintained here).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("A01","Control-file parsing is faithful: no paragraph or field lost or invented",
 "For every well-formed Debian control document (any number of paragraphs and separating blank lines, comments, multi-line fields, LF or CRLF line ends, lines up to the documented size limit, optionally wrapped in a clear-signed PGP envelope), reading it paragraph by paragraph yields exactly the fields and values written, in order, followed by io.EOF. A document with a malformed line, an over-long line or a failing reader yields a non-EOF error that sticks, never a silently shortened sequence of paragraphs.",
 ["inputs"],"all control documents, all ways of chunking the reader, all read failures",
 "parser tests read three fixed files; separators, comments, envelopes, chunk boundaries and line lengths are quantified over and never varied",
 ["apt/parser.go"],[("Parser.Read line classification and paragraph end","apt/parser.go Read"),("bufio.Scanner with 1 MiB limit","apt/parser.go NewParser")],
 [("Parser.err","sticky terminal error","apt/parser.go"),("Parser.isPGP","inside a clear-signed document","apt/parser.go")],["apt.NewParser(r).Read"])
p("A02","Index extraction returns exactly the files an index lists",
 "For every well-formed Release, InRelease, Index, Packages or Sources file, plain or compressed with gzip, bzip2 or xz, extraction returns exactly the listed files: each with the listed size and precisely the listed MD5, SHA1 and SHA256 digests, paths resolved against the right base directory, and Release/InRelease/Release.gpg self-entries ignored. The result does not depend on the compression used, and the by-hash flag is reported exactly when the Release says Acquire-By-Hash: yes.",
 ["inputs"],"all index contents, all subsets of checksum fields per entry, all compressions",
 "tests look up a few known entries in five fixed files; they never check that nothing is dropped, duplicated or mixed between entries",
 ["apt/meta.go","apt/fileinfo.go"],[("per-format extractors merging checksum sections by path","apt/meta.go getFilesFrom*"),("decompression by extension","apt/meta.go ExtractFileInfo"),("SupportByHash","apt/meta.go")],
 observe=["apt.ExtractFileInfo","apt.SupportByHash"])
p("A03","Damaged or hostile index data is rejected, never partially accepted",
 "For any byte string presented as an index, extraction terminates without panicking; if the compressed stream is truncated or corrupted, or an entry lacks a required field or carries an unparsable size or digest, it returns an error and no file list. No accepted entry names a path that leads above the repository root.",
 ["inputs"],"all byte strings under every index name; every truncation point and every single corruption of a valid index; all path spellings",
 "no test feeds damaged, truncated or hostile input",
 ["apt/meta.go","apt/parser.go"],[("error returns of extractors and decompressors","apt/meta.go"),("sticky parser errors","apt/parser.go")],
 observe=["apt.ExtractFileInfo"])
p("A04","Checksum verification accepts exactly matching content",
 "Comparing an expected file record with a measured one succeeds if and only if path and size agree and every digest present in the expected record equals the measured one; a digest the expectation lacks imposes nothing. Streaming a copy writes the source bytes unchanged and yields the true size and true MD5, SHA1 and SHA256 for any chunking, and reports an error instead of a record when the source or the destination fails.",
 ["inputs","fault_sequences"],"all contents, all digest subsets, all single deviations, all reader chunkings and I/O failures",
 "tests cover one nine-byte content and hand-picked mismatches",
 ["apt/fileinfo.go"],[("FileInfo.Same","apt/fileinfo.go"),("CopyWithFileInfo multi-writer","apt/fileinfo.go"),("CalcChecksums","apt/fileinfo.go")],
 observe=["FileInfo.Same","CopyWithFileInfo","FileInfo.CalcChecksums"])
p("A05","Saved file records survive a save/load round trip unchanged",
 "Encoding a file record with a valid UTF-8 path (or a map of them) to JSON and decoding it again yields a record that is indistinguishable from the original: same path, size, digests, by-hash locations, and the same verdict against every other record, including records that carry only some digests or none. Malformed digests in the JSON are rejected with an error.",
 ["inputs"],"all records over all subsets of digests, sizes and path strings",
 "one test round-trips one record with all three digests",
 ["apt/fileinfo.go","mirror/storage.go"],[("MarshalJSON/UnmarshalJSON","apt/fileinfo.go"),("info.json","mirror/storage.go Save/Load")],
 observe=["json.Marshal/Unmarshal of *apt.FileInfo"])
p("A06","Index classification, by-hash locations and prefixing are consistent",
 "A path is treated as an index exactly when its last element is Release, Release.gpg, InRelease, Packages, Sources or Index with at most one of the known compression suffixes; every such path reported as supported can be extracted and every one reported unsupported is refused, as are non-index paths. By-hash locations are <directory of the file>/by-hash/<algorithm>/<lower-case hex digest> for each digest present, and adding a prefix puts the same record under that prefix without altering the original.",
 ["inputs"],"all path strings and records",
 "tests check a dozen literal paths",
 ["apt/meta.go","apt/fileinfo.go"],[("IsMeta / IsSupported suffix tables","apt/meta.go"),("MD5SumPath, SHA1Path, SHA256Path, AddPrefix","apt/fileinfo.go")],
 observe=["apt.IsMeta","apt.IsSupported","FileInfo.*Path","FileInfo.AddPrefix"])

p("C01","Cached service never delivers content that contradicts the known checksums",
 "Whenever go-apt-cacher answers 200 for a path whose size and checksums are known from an index it has fetched, the body matches them byte for byte, whatever the upstream sent (wrong, truncated, interrupted or delayed data), whatever was cached before, and whatever other downloads ran concurrently. Without known checksums the body is a complete upstream response, never a fragment.",
 ["histories","schedules","fault_sequences"],"all request histories over repositories that change, with arbitrary upstream faults, latencies and concurrent requests",
 "no test ever starts a Cacher; the end-to-end validation path is untested",
 ["cacher/cacher.go","cacher/storage.go","apt/fileinfo.go"],[("validation against FileInfo after download","cacher/cacher.go download"),("Storage.Lookup compares checksums","cacher/storage.go"),("info table guarded by fiLock","cacher/cacher.go")],
 [("Cacher.info","expected checksums per path","cacher/cacher.go"),("Storage.cache","stored items","cacher/storage.go")],["HTTP responses of cacher.NewServer's handler"])
p("C02","Indices are refreshed and superseded content is not served",
 "Every cached Release and InRelease (with Release.gpg) is re-fetched once per check interval as long as the service runs, also after a restart. Once a new Release or index has been taken in, files whose listed checksums changed are fetched anew instead of being answered from the old copy, even when an older download of the same file was in flight at that moment; and HTTP caches on the way to upstream are told to revalidate, so that they cannot answer with older data in its place.",
 ["histories","schedules"],"all upstream update histories, all interleavings of client requests, refreshes and in-flight downloads",
 "refresh timers and overlapping downloads are never exercised",
 ["cacher/cacher.go"],[("maintRelease ticker","cacher/cacher.go maintRelease"),("info table update from parsed indices","cacher/cacher.go download")],
 [("Cacher.info","expected checksums per path","cacher/cacher.go")],["upstream request log and client responses in virtual time"])
p("C03","The item cache is an exact size-bounded LRU over whole files",
 "After any sequence of inserts, replacements, lookups, deletions and reloads, the storage holds exactly the items that a size-bounded least-recently-used cache would hold, with their exact contents on disk and nothing else; the total size never exceeds the capacity (unless the newest item alone is larger), and eviction removes the least recently used items first and no more than needed. A zero capacity never evicts.",
 ["histories"],"all operation sequences, item sizes, capacities and path shapes",
 "one scripted sequence of six operations is tested",
 ["cacher/storage.go"],[("heap ordered by logical access time","cacher/storage.go Less/Swap/Push/Pop"),("maint eviction loop","cacher/storage.go maint"),("size accounting","cacher/storage.go Insert/Delete/Load")],
 [("Storage.used","total bytes accounted","cacher/storage.go"),("Storage.lru","heap of entries","cacher/storage.go")],["Storage API results and the directory contents"])
p("C04","Cache directories stay recoverable at every crash point",
 "If the process dies or the power fails at any point while caching (data never forced to disk is then lost), reopening the same directory recovers only complete files: every recovered item carries content that was completely downloaded for that path, partial, temporary and foreign files are ignored and foreign files left alone, items untouched by the interrupted operation are still there, and recovered items are served only if their content matches the requested checksums.",
 ["crash_points","histories"],"all operation sequences, all crash points between file-system operations, arbitrary foreign non-cache files",
 "reload is tested once on a hand-made directory without any crash",
 ["cacher/storage.go","cacher/cacher.go"],[("write to temp file, fsync, then hard-link into place","cacher/cacher.go download, cacher/storage.go Insert"),("Load walks *.cache files, delayed checksums","cacher/storage.go Load/Lookup")],
 observe=["Storage.Load/ListAll/Lookup on the surviving directory"],hook="file-system operation hook through a go build overlay of package os; no change in /repo")
p("C05","Every request is answered with the right status and bounded upstream work",
 "Each request terminates with a response after a bounded number of upstream requests: content with 200 when upstream delivers acceptable data, the upstream's own status when upstream answers with an error status, and a 5xx when the upstream cannot be reached, breaks off, delivers data failing validation, or the item cannot be stored. A failure is remembered for the cache period, during which no new upstream request is made for that path, and is retried afterwards; this holds likewise while the local disk fails, and once it works again requests succeed again.",
 ["inputs","histories","fault_sequences"],"all request paths, upstream statuses and faults, request timings",
 "no test issues a request",
 ["cacher/cacher.go","cacher/handler.go"],[("Get retry loop and result cache","cacher/cacher.go Get"),("status recording and expiry","cacher/cacher.go download")],
 [("Cacher.results","recent upstream statuses","cacher/cacher.go")],["client responses and upstream request log"])
p("C06","Downloads are single-flight per file and limited per upstream host",
 "At any moment at most one upstream request per path and at most max_conns upstream requests per host are in progress, zero meaning unlimited; concurrent requests for the same uncached file share one download and all get the same valid answer. Slots are always given back, so no amount of failures reduces the available parallelism, and one host's backlog does not block another host.",
 ["schedules","histories"],"all interleavings of concurrent requests over several hosts, limits and faults",
 "no test performs concurrent requests",
 ["cacher/cacher.go"],[("dlChannels map under dlLock","cacher/cacher.go Download"),("host semaphores","cacher/cacher.go acquireSemaphore/releaseSemaphore")],
 [("Cacher.dlChannels","downloads in flight","cacher/cacher.go"),("Cacher.hostSem","connection tokens per host","cacher/cacher.go")],["upstream in-flight counters"])
p("C07","A restart preserves the cache and its checksum knowledge",
 "Restarting go-apt-cacher on directories it wrote always succeeds, whatever upstream data (even unparsable index files) had been cached, and afterwards behaves as before: items listed in cached indices and indices listed in cached Release files are served from the cache without contacting upstream exactly when they match, and non-matching content is fetched again. Indices superseded by a cached Release contribute no checksums.",
 ["histories","crash_points"],"all caching histories followed by restarts with the upstream available or not",
 "NewCacher's recovery scan is never run on a non-empty directory",
 ["cacher/cacher.go","cacher/storage.go"],[("recovery scan in NewCacher","cacher/cacher.go NewCacher"),("Storage.Load","cacher/storage.go")],
 observe=["responses and upstream requests after restart"])
p("C08","HTTP front end: methods, HEAD, ranges and unknown paths",
 "Only GET and HEAD are accepted, anything else gets 501 without touching upstream; HEAD reports the same status and length as GET without a body; range requests return exactly the requested bytes of the cached file. Paths outside every configured prefix and indices in unsupported compressions get 404 without upstream contact, and no request, however odd its path, crashes the service or reaches a file outside the cache.",
 ["inputs"],"all methods, paths, path encodings and range headers",
 "the handler has no tests",
 ["cacher/handler.go","cacher/cacher.go","cacher/urlmap.go"],[("method switch and path cleaning","cacher/handler.go ServeHTTP"),("http.ServeContent","cacher/handler.go"),("IsSupported gate","cacher/cacher.go Get")],
 observe=["HTTP responses"])
p("C09","Prefix mapping sends each path to the right upstream URL",
 "A local path under a registered prefix maps to the registered base URL followed by the rest of the path, with every character preserved through URL escaping, on the registered scheme and host; leading slashes are ignored, and a path under no registered prefix maps to nothing. Registration accepts exactly the documented prefixes and works for base URLs with or without trailing slash.",
 ["inputs","configurations"],"all prefixes, base URLs and path strings",
 "tests map two literal paths",
 ["cacher/urlmap.go"],[("URLMap.URL with ResolveReference","cacher/urlmap.go"),("validPrefix","cacher/urlmap.go Register")],
 observe=["URLMap.URL results, upstream request URLs"])
p("C10","Repositories are isolated: one prefix's index cannot affect another's files",
 "Index data fetched under one prefix only ever influences requests under that prefix, whatever file names it lists, and all files the cacher writes stay inside its two directories, index files in one and other files in the other. The configured capacity counts the other files only, whatever the amount of index data; pressure evicts only them, and an evicted file is fetched and verified again on the next request.",
 ["inputs","histories"],"all index contents including hostile file names, all request histories under capacity pressure",
 "no test has two prefixes or exceeds the cache capacity through the Cacher",
 ["cacher/cacher.go","cacher/storage.go","apt/meta.go","apt/fileinfo.go"],[("addPrefix","cacher/cacher.go"),("separate Storages with capacity 0 for metas","cacher/cacher.go NewCacher"),("path checks","cacher/storage.go Insert")],
 observe=["responses, directory contents"])
p("C11","Shutdown is prompt and complete",
 "When the service is stopped, every background activity (refresh timers, result expiry, downloads) ends and every waiting client is answered, in every state the cacher can be in, including cached repositories whose mapping was removed and downloads interrupted half-way.",
 ["schedules","histories"],"all histories and all stop times",
 "no test stops a Cacher",
 ["cacher/cacher.go"],[("context-aware goroutines started through well.Go","cacher/cacher.go maintRelease/download")],
 observe=["well.Wait returning in virtual time"])
p("C12","Cache service and storage are safe and consistent under concurrent use",
 "Concurrent requests to one service, and concurrent inserts, lookups, deletes and listings on one storage, are free of data races and deadlocks; a successful lookup always returns the complete content matching the requested checksums, even if the item is replaced or evicted meanwhile, and once activity stops the directory, the listing and the size bound agree.",
 ["schedules","histories"],"all interleavings of concurrent storage operations",
 "storage tests are sequential",
 ["cacher/storage.go"],[("Storage.mu around heap, map and file operations","cacher/storage.go")],
 [("Storage.mu","protects cache, lru, used, lclock","cacher/storage.go")],["Storage API and a service in virtual time under the race detector"])

p("M01","Published mirrors switch atomically between complete versions",
 "At every instant of every update, successful or not, the published name of a mirror is either absent (never published before) or leads to one complete, mutually consistent version: every file named by the index files in it that the mirror selected is present with matching content. The switch to a new version happens in a single step, and the version visible before it stays intact until after the switch.",
 ["histories","crash_points","fault_sequences"],"every point between two file-system operations of every update history, with and without faults",
 "the only mirror test skips itself before updating anything",
 ["mirror/mirror.go","mirror/control.go","mirror/storage.go"],[("build in a fresh timestamped directory, then symlink + rename","mirror/mirror.go replaceLink"),("gc after update","mirror/control.go gc")],
 observe=["directory tree after every file-system operation"],hook="file-system operation hook through a go build overlay of package os; no change in /repo")
p("M02","A failed update is reported and leaves the published mirror untouched",
 "If a needed file cannot be obtained intact (missing item, wrong content, broken index, missing Release, persistent server or connection error) or a local write, link or sync that the new version needs fails and is not made up for by a retry, the update returns an error and the published mirror is exactly what it was before (a sync failing after the switch is reported as well). It never reports success for a mirror that lacks or corrupts a needed file.",
 ["fault_sequences","histories"],"all placements of upstream faults over the files of a repository, and an injected error at every local file-system operation",
 "no fault is ever injected by a test",
 ["mirror/mirror.go","mirror/storage.go"],[("error propagation through downloadFiles/recvResult","mirror/mirror.go"),("publication last","mirror/mirror.go Update"),("Save errors","mirror/storage.go")],
 observe=["error result of the run, published tree"],hook="file-system fault injection through a go build overlay of package os; no change in /repo")
p("M03","A successful update publishes exactly what the indices describe",
 "After a successful update the published tree contains, byte for byte, the Release files of each suite, every index they list that upstream offers, and every file listed by the selected indices, each at its repository path and matching its checksums, plus by-hash names for indices of suites that announce by-hash; it contains nothing else (beside it, the version directory holds only the saved checksum records), and published files are readable by everyone. The outcome does not depend on the order in which responses arrive.",
 ["inputs","schedules"],"all repository layouts (flat and non-flat, several suites, compressions, by-hash), all response orders",
 "no test completes an update",
 ["mirror/mirror.go","mirror/storage.go","apt/meta.go"],[("downloadRelease/downloadIndices/extractItems/downloadItems","mirror/mirror.go"),("StoreLink, StoreLinkWithHash","mirror/storage.go")],
 observe=["published tree versus the repository model"])
p("M04","Partial mirrors select exactly the configured sections and architectures",
 "An index contributes packages exactly when it is Packages of a configured section for a configured architecture or 'all', or Sources of a configured section with source mirroring on; for flat repositories, Packages always and Sources with source mirroring on. Section and architecture names match as whole path elements, never as mere suffixes, and the Release file locations follow from the suite name alone.",
 ["inputs","configurations"],"all combinations of suites, sections, architectures and index paths",
 "tests check a handful of literal paths for one configuration",
 ["mirror/config.go"],[("MatchingIndex","mirror/config.go"),("ReleaseFiles, Resolve","mirror/config.go")],
 observe=["MirrConfig.MatchingIndex, ReleaseFiles, Resolve"])
p("M05","Incremental updates equal fresh mirrors and refetch only what changed",
 "Updating an existing mirror to a new upstream state publishes exactly the same tree as mirroring that state from scratch. Apart from the Release files, no file that is unchanged since the published version is downloaded again, and changed files are never reused.",
 ["histories"],"all sequences of upstream states, including additions, removals, content swaps, renames and identical contents",
 "no test performs two updates",
 ["mirror/mirror.go","mirror/storage.go"],[("reuse through Storage.Lookup and hard links","mirror/mirror.go reuseOrDownload"),("info.json","mirror/storage.go Save/Load")],
 [("info.json","checksums of the published files","mirror/storage.go")],["published tree and upstream request log"])
p("M06","Transient download failures are retried and by-hash fallbacks are used",
 "A download that fails with a connection error, a truncated body or a 5xx status is retried with growing pauses up to five times before the update gives up, and succeeds as soon as one attempt delivers the right content. For by-hash repositories an index whose plain location holds other content is taken from its by-hash location; an index that upstream offers only with wrong content is an error, not a missing file.",
 ["fault_sequences"],"all sequences of up to and beyond the retry limit of transient failures on any subset of files, all by-hash availability patterns",
 "retries and fallbacks are never exercised",
 ["mirror/mirror.go"],[("retry loop with exponential sleep","mirror/mirror.go download"),("by-hash target list","mirror/mirror.go download")],
 observe=["upstream request log in virtual time, run result"])
p("M07","Garbage collection removes all and only unreferenced versions",
 "After every run that ended by itself, successful or failed, the mirror directory holds just the lock file, the published links and the version directories they point to: superseded, partial and abandoned versions are gone. Versions referenced by any published link survive, including those of mirrors not updated in this run or no longer configured. What an interrupted or killed run leaves behind is removed by the next run.",
 ["histories","fault_sequences"],"all histories of runs over subsets of mirrors, with failures and leftovers of earlier crashes",
 "gc is never run by a test",
 ["mirror/control.go"],[("gc","mirror/control.go")],
 observe=["directory listing after each run"])
p("M08","Only one mirroring process works on a directory at a time",
 "While one run is in progress on a mirror directory, any other run on it fails without contacting upstream and without changing anything; after the first one ends, in success or failure, the next run can proceed, be it within the same second.",
 ["schedules"],"all start times of a second run relative to the first, first-ever runs included",
 "the lock wrapper is tested alone, with one sleep-based schedule",
 ["mirror/control.go","mirror/flock.go"],[("flock on .lock","mirror/control.go Run, mirror/flock.go")],
 observe=["run results, upstream log and directory"])
p("M09","Mirroring never writes or deletes outside its own directory",
 "Whatever paths the upstream index files contain, all files, directories and links the mirror creates, replaces or removes lie inside the configured mirror directory, and new content inside it only goes to the version directory being built; an index naming a path outside the repository makes the update fail or the entry be ignored (absolute paths are taken as relative to the repository).",
 ["inputs"],"all path spellings in Release, Packages and Sources files (parent references, absolute paths, odd names)",
 "no test uses a hostile path",
 ["mirror/storage.go","mirror/mirror.go","apt/meta.go"],[("path construction in StoreLink","mirror/storage.go"),("path handling in index extraction","apt/meta.go")],
 observe=["every mutating file-system operation, sentinels around the directory"],hook="file-system operation hook through a go build overlay of package os; no change in /repo")
p("M10","Downloads respect max_conns and always run to completion",
 "While a mirror is updated, at most max_conns requests are in progress at its upstream at any time, failed attempts included, and zero means unlimited; any positive limit, including one, completes the update of any repository, and the limit is actually used when enough files are pending.",
 ["configurations","schedules"],"all limits, repository sizes and response latencies",
 "no test downloads anything",
 ["mirror/mirror.go"],[("semaphore channel","mirror/mirror.go")],
 [("Mirror.semaphore","available connection tokens","mirror/mirror.go")],["upstream in-flight counters in virtual time"])
p("M11","Everything is durable before it is published",
 "When the published link is switched, all data it leads to has already been forced to stable storage: contents of every newly written file, the directory entries of every new file, directory and link, and the saved checksum records; after a successful run the switch itself is durable. A failing sync prevents publication.",
 ["crash_points","fault_sequences"],"every power-loss point of every update history, every failing sync",
 "durability cannot be observed by a test that does not model the page cache",
 ["mirror/mirror.go","mirror/storage.go","mirror/dirsync.go"],[("tempfile.Sync, DirSyncTree, DirSync around rename","mirror/mirror.go, mirror/storage.go, mirror/dirsync.go")],
 observe=["log of file-system operations and syncs"],hook="file-system operation log through a go build overlay of package os; no change in /repo")
p("M12","Mirror storage answers lookups exactly for what it stored",
 "A lookup finds a file exactly when a file with that path (or, for by-hash lookups, that digest location and path) and matching checksums was stored, and the reported location holds that content; storing a second file under a taken path is refused, or with by-hash kept reachable under its digest without disturbing the first. Saving and reloading preserves all answers.",
 ["histories"],"all sequences of stores with and without by-hash, lookups, saves and reloads, with colliding paths and equal contents",
 "tests store four files once",
 ["mirror/storage.go"],[("StoreLink, StoreLinkWithHash, Lookup","mirror/storage.go"),("Save/Load","mirror/storage.go")],
 [("Storage.info","known files by path and by-hash path","mirror/storage.go")],["mirror.Storage API and directory"])
p("M13","After a crash at any point the next run repairs everything",
 "If a run is killed at any point, the next run with a healthy upstream, however soon, succeeds, publishes the complete current version, and removes every leftover of the killed run; nothing half-written by the killed run ends up in the published tree.",
 ["crash_points","histories"],"every point between two file-system operations of first and later runs",
 "no test interrupts a run",
 ["mirror/control.go","mirror/mirror.go","mirror/storage.go"],[("fresh version directory per run","mirror/mirror.go NewMirror"),("temporary link replaced","mirror/mirror.go replaceLink"),("gc","mirror/control.go")],
 observe=["directory tree and result of the following run"],hook="file-system operation hook through a go build overlay of package os; no change in /repo")

p("X01","Invalid configuration is refused without effect; valid values are honoured",
 "Both programs and their configuration loaders refuse unknown keys, missing URLs, unsupported URL schemes, invalid identifiers and prefixes, missing or relative or equal directories, non-positive intervals and capacities, negative limits, unknown mirrors, and mirrors without suites, mixing flat and non-flat suites or giving sections or architectures to a flat one; refusal is an error exit that leaves the file system unchanged apart from an empty lock file, log file or cache directory. Every accepted configuration runs with the values given, documented defaults filling the gaps.",
 ["configurations"],"all configuration files built from valid parts with any single defect",
 "config tests decode one sample file each; main programs have no tests",
 ["cmd/go-apt-cacher/main.go","cmd/go-apt-mirror/main.go","cacher/config.go","cacher/cacher.go","mirror/config.go","mirror/mirror.go"],[("Undecoded check","cmd/*/main.go"),("NewCacher checks","cacher/cacher.go"),("MirrConfig.Check, NewMirror checks","mirror/config.go, mirror/mirror.go")],
 observe=["exit status, file system, behaviour"])
p("X02","The shipped programs mirror and cache end to end",
 "Run as processes against a real HTTP upstream, go-apt-mirror publishes a mirror identical to the upstream selection, and go-apt-cacher, alone or in front of that mirror, serves every repository file identically to upstream, keeps serving cached files when upstream is gone, and both programs end promptly on SIGTERM without crashing, whatever requests are pending.",
 ["configurations","inputs"],"all generated repositories and configurations",
 "no test runs the programs",
 ["cmd/go-apt-cacher/main.go","cmd/go-apt-mirror/main.go","cacher/server.go","mirror/control.go"],[("program wiring","cmd/*/main.go"),("NewServer","cacher/server.go"),("Run","mirror/control.go")],
 observe=["process exit status, HTTP responses, directory tree"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
