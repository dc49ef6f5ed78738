"""Which test functions decide which property, and how many cases each runs
(quick tier; the thorough tier multiplies by 'deep')."""

LEGS = {
    "A01": [dict(pkg="aptp", leg="A01_doc", checks=20000), dict(pkg="aptp", leg="A01_long", checks=800, shards=2),
            dict(pkg="aptp", leg="A01_fail", checks=20000)],
    "A02": [dict(pkg="aptp", leg="A02_extract", checks=16000), dict(pkg="aptp", leg="A02_many", checks=800, shards=4), dict(pkg="aptp", leg="A02_shared", checks=3000, shards=2)],
    "A03": [dict(pkg="aptp", leg="A03_damage", checks=2000, shards=6), dict(pkg="aptp", leg="A03_mangle", checks=16000), dict(pkg="aptp", leg="A03_reader", checks=6000, shards=4),
            dict(pkg="aptp", leg="A03_paths", checks=10000, shards=2), dict(pkg="aptp", leg="A03_junk", checks=10000, shards=2)],
    "A04": [dict(pkg="aptp", leg="A04_copy", checks=10000), dict(pkg="aptp", leg="A04_same", checks=20000)],
    "A05": [dict(pkg="aptp", leg="A05_roundtrip", checks=20000), dict(pkg="aptp", leg="A05_malformed", checks=10000)],
    "A06": [dict(pkg="aptp", leg="A06_classify", checks=30000), dict(pkg="aptp", leg="A06_paths", checks=20000)],
    "C01": [dict(pkg="cacherp", leg="C01_seq", checks=1600), dict(pkg="cacherp", leg="C01_conc", checks=1200)],
    "C02": [dict(pkg="cacherp", leg="C02_seq", checks=1600), dict(pkg="cacherp", leg="C02_conc", checks=1200), dict(pkg="cacherp", leg="C02_flaky", checks=1200)],
    "C03": [dict(pkg="cacherp", leg="C03_lru", checks=8000), dict(pkg="cacherp", leg="C03_fault", checks=4000)],
    "C04": [dict(pkg="cacherp", leg="C04_crash", checks=1400), dict(pkg="cacherp", leg="C04_reload", checks=2400, shards=3)],
    "C05": [dict(pkg="cacherp", leg="C05_seq", checks=1600), dict(pkg="cacherp", leg="C05_conc", checks=1200),
            dict(pkg="cacherp", leg="C05_memory", checks=1600), dict(pkg="cacherp", leg="C05_direct", checks=800, shards=2), dict(pkg="cacherp", leg="C05_slow", checks=1600, shards=4), dict(pkg="cacherp", leg="C05_hang", checks=800, shards=2),
            dict(pkg="cacherp", leg="C05_disk", checks=1600),
            dict(pkg="cacherp", leg="C05_huge", checks=3, shards=1, solo=True, deep=3)],
    "C06": [dict(pkg="cacherp", leg="C06_conc", checks=1200), dict(pkg="cacherp", leg="C06_burst", checks=1200)],
    "C07": [dict(pkg="cacherp", leg="C07_seq", checks=2400)],
    "C08": [dict(pkg="cacherp", leg="C08_front", checks=3000)],
    "C09": [dict(pkg="cacherp", leg="C09_map", checks=20000)],
    "C10": [dict(pkg="cacherp", leg="C10_iso", checks=700), dict(pkg="cacherp", leg="C10_evict", checks=800),
            dict(pkg="cacherp", leg="C10_meta", checks=3, shards=1, solo=True, deep=3)],
    "C11": [dict(pkg="cacherp", leg="C11_stop", checks=2400)],
    "C12": [dict(pkg="cacherp", leg="C12_storage", checks=3000, race=True), dict(pkg="cacherp", leg="C12_svc", checks=600, race=True)],
    "M01": [dict(pkg="mirrorp", leg="M01_watch", checks=1400, shards=6), dict(pkg="mirrorp", leg="M01_skew", checks=1000, shards=2)],
    "M02": [dict(pkg="mirrorp", leg="M02_many", checks=120, shards=3, deep=8), dict(pkg="mirrorp", leg="M02_faults", checks=1600, shards=4), dict(pkg="mirrorp", leg="M02_update", checks=1200, shards=4), dict(pkg="mirrorp", leg="M02_local", checks=1000, shards=4)],
    "M03": [dict(pkg="mirrorp", leg="M03_many", checks=120, shards=3, deep=8), dict(pkg="mirrorp", leg="M03_fresh", checks=2000, shards=5), dict(pkg="mirrorp", leg="M03_order", checks=400, shards=3, race=True)],
    "M04": [dict(pkg="mirrorp", leg="M04_partial", checks=4000, shards=8)],
    "M05": [dict(pkg="mirrorp", leg="M05_many", checks=120, shards=3, deep=8), dict(pkg="mirrorp", leg="M05_incr", checks=1800, shards=8)],
    "M06": [dict(pkg="mirrorp", leg="M06_retry", checks=2400, shards=8)],
    "M07": [dict(pkg="mirrorp", leg="M07_gc", checks=1600, shards=8)],
    "M08": [dict(pkg="mirrorp", leg="M08_rival", checks=800, shards=5), dict(pkg="mirrorp", leg="M08_held", checks=500, shards=3),
            dict(pkg="mirrorp", leg="M08_proc", checks=64, shards=8, progs=True, deep=6)],
    "M09": [dict(pkg="mirrorp", leg="M09_evil", checks=3200, shards=8), dict(pkg="mirrorp", leg="M09_hist", checks=1600, shards=8)],
    "M10": [dict(pkg="mirrorp", leg="M10_many", checks=120, shards=3, deep=8), dict(pkg="mirrorp", leg="M10_conns", checks=2400, shards=8)],
    "M11": [dict(pkg="mirrorp", leg="M11_order", checks=1000, shards=4), dict(pkg="mirrorp", leg="M11_sync", checks=1200, shards=4)],
    "M12": [dict(pkg="mirrorp", leg="M12_model", checks=3600, shards=5), dict(pkg="mirrorp", leg="M12_conc", checks=1800, shards=3, race=True)],
    "M13": [dict(pkg="mirrorp", leg="M13_kill", checks=1600, shards=8),
            dict(pkg="mirrorp", leg="M13_proc", checks=64, shards=8, progs=True, deep=6)],
    "X01": [dict(pkg="mirrorp", leg="X01_config", checks=2400, shards=8, progs=True), dict(pkg="mirrorp", leg="X01_defaults", checks=4000, shards=2),
            dict(pkg="cacherp", leg="X01_capacity", checks=3000, shards=2),
            dict(pkg="cacherp", leg="X01_periods", checks=2000, shards=4)],
    "X02": [dict(pkg="mirrorp", leg="X02_mirror", checks=128, shards=16, progs=True, deep=6),
            dict(pkg="mirrorp", leg="X02_cacher", checks=800, shards=8, progs=True),
            dict(pkg="mirrorp", leg="X02_stop", checks=1200, shards=4)],
}

RULES = {
    "A01": "rapid draws a document model (paragraphs, fields, continuation lines, comments, blank runs, line ends, PGP envelope, reader chunking) and renders it; non-trivial = at least two paragraphs or a multi-line field, or (fail legs) a real defect placed in the document",
    "A02": "rapid draws an index model (kind, entries with digest subsets, spelling, compression, members/blocks, chunking) and renders it; non-trivial = at least one listed entry",
    "A03": "a valid rendered index is truncated, corrupted, stripped of a field, given a bad value or a climbing path, or arbitrary bytes are presented; non-trivial = the mutation really changed the data",
    "A04": "rapid draws contents, chunkings, failure points and pairs of records differing in chosen attributes; non-trivial = non-empty content or a pair that shares at least one digest",
    "A05": "rapid draws records with any digest subset and JSON mutations; non-trivial = a record with at least one digest, or a really malformed digest",
    "A06": "rapid draws paths from index-like and other name parts, prefixes and digest subsets; non-trivial = an index-like last element or a record with a digest",
}

RULES.update({
    "C01": "rapid draws an upstream (prefixes, hosts, versions with listed digests of any subset, inconsistent or broken indices) and a sequential or timed concurrent history of client sessions, upstream switches, injected faults and restarts; non-trivial = data was rejected, superseded or delivered for a listed file",
    "C02": "same generator; C02_flaky: refreshes of maintained files that fail in any way; non-trivial = at least one refresh (flaky: two) or a listing changed while a request was in progress",
    "C03": "rapid draws a capacity and a sequence of inserts, replacements, lookups (matching, mismatching), deletions, reloads, refused paths, missing sources, foreign files, or one failing file-system operation; non-trivial = an eviction, replacement or reload with items happened (fault leg: an operation really failed)",
    "C04": "rapid draws a history and a uniformly chosen file-system operation at which the process dies (nothing later reaches the disk), now and then after failing syncs, half of the time with the loss of all unsynced data; non-trivial = the process died with at least one file cached; C04_reload: storage histories with reloads among files and links of others, non-trivial = evictions, replacements or a reload with items",
    "C05": "histories rich in upstream faults (error statuses, refused, cut, hanging, garbage, wrong data); non-trivial = at least one failure was answered; C05_memory: failures following each other on a maintained path, non-trivial = one was answered from memory; C05_direct: Cacher.Get with odd spellings of paths, non-trivial = one was odd; C05_hang: volleys during which upstream answers never end, non-trivial = one was waited for; C05_slow: one client per file asks again and again while upstream takes its time to fail, non-trivial = a slow failure and one answered from memory; C05_disk: file-system operations fail while items are stored, non-trivial = an item could not be stored",
    "C06": "timed concurrent histories and bursts over several hosts after storms of failures; non-trivial = requests to one host overlapped or the limit was reached",
    "C07": "sequential histories with several restarts; non-trivial = a cached file was asked for after a restart",
    "C08": "lists of raw HTTP requests (methods, targets, escapings, ranges, protocol versions); non-trivial = a range was answered or an odd name requested",
    "C09": "registrations of valid and invalid prefixes with base URLs and lookups with arbitrary characters; non-trivial = a lookup under a registered prefix with a rest",
    "C10": "two-prefix histories with hostile index entries replayed with and without the other prefix, and histories under capacity pressure; non-trivial = content delivered with hostile entries present, or an evicted file fetched again; C10_meta: histories with a gigabyte among the index files, non-trivial = content delivered after the restart",
    "C11": "timed concurrent histories stopped at an arbitrary instant, with hanging upstreams and removed mappings; non-trivial = requests pending at the stop",
    "C12": "rapid draws per-thread operation lists on one storage, or a concurrent service history, run in a race-detector build; non-trivial = a lookup hit or overlapping requests",
})

_MANY = "the _many legs mirror up to 400 items in up to 36 indices twice (non-trivial there: more than 100 items, and something lost / unchanged / a limit); otherwise: "
_HIST = "rapid draws one to three mirrors (flat or not, by-hash or not, release and index kinds, compressions, digest subsets, missing, stale or skewed indices), later upstream versions, configurations and a history of runs, upstream changes, reconfigurations and left-overs; "
RULES.update({
    "M01": _HIST + "every file-system operation of every run (also failing, interrupted and with upstream changing midway) is followed by a check of the published names; non-trivial = a run updated an already published mirror",
    "M02": _MANY + _HIST + "with download faults of 21 kinds, or one file-system operation of the last run failing; non-trivial = a run failed, or the operation really failed",
    "M03": _MANY + _HIST + "all downloads succeed; non-trivial = a run published at least one file (M03_order: race-detector build)",
    "M04": _HIST + "one version, changing section, architecture and source choices; non-trivial = the selection is a proper, non-empty part of upstream",
    "M05": _MANY + _HIST + "several versions; non-trivial = a run updated an already published mirror",
    "M06": _HIST + "every run with faults; non-trivial = a request of a run was disturbed",
    "M07": _HIST + "with abandoned files, aliases, interrupted and failing runs; non-trivial = at least two runs",
    "M08": _HIST + "a second run is started at a uniformly chosen file-system operation of the last run, or runs are tried while another process holds the lock (M08_proc: both as processes); non-trivial = a second run was tried",
    "M09": "rapid draws repositories whose Packages, Sources, Release, nested Release or diff Index contain one to three hostile paths (climbing, absolute, colliding, into sibling versions, odd); non-trivial = a hostile entry was rendered; and histories of runs (some unable to set up a mirror) over left-overs, among them links that lead out of the mirror directory; non-trivial = there was such a link",
    "M10": _MANY + _HIST + "small limits, unlimited, response times; non-trivial = a run succeeded",
    "M11": _HIST + "a durability model follows every write, link and sync; or one sync of the last run fails; non-trivial = a run updated a published mirror, or a sync failed",
    "M12": "rapid draws store, lookup, open and reload calls on one mirror storage (paths in each other's way, records with any digest subset), or per-thread lists in a race-detector build; non-trivial = a lookup found something, or a path was contended",
    "M13": _HIST + "the process dies at a uniformly chosen file-system operation of the last run, then a healthy run follows (M13_proc: go-apt-mirror is killed at a drawn request); non-trivial = it died",
    "X01": "rapid draws a configuration of either program from valid parts and puts zero to two of 18 kinds of defects into it; the program is run as a process (X01_defaults: a subset of the keys decoded over the defaults); non-trivial = the configuration was defective, or valid and run with its limits measured",
    "X02": "rapid draws repositories, configurations, upstream versions, denied files, interruptions and client orders; the programs are run as processes against a server on the loopback interface; non-trivial = a second run succeeded or one was interrupted (go-apt-mirror), more than three files were served (go-apt-cacher); X02_stop: in virtual time, runs told to stop while upstream is in trouble must end within two seconds, non-trivial = a run failed or was stopped",
})

LEVELS = {}

ASSUMPTIONS = {
    "": ["Go 1.27 compiler, runtime and standard library behave as documented",
         "generated-input search: absence of a violation is evidence, not proof"],
}

TECH = {
    "": "property-based testing (rapid): generated inputs against an independent reference model, with shrinking",
}

NOTES = {
    "": "Searches generated inputs against an explicit oracle in the real code built from /repo; finds violations inside the generated domain, never proves absence.",
}
