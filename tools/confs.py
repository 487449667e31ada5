def conf(id, real, stub, probes, runs=16000, thorough=1500000, rule=None, assumptions=(), race=0):
    C[id] = dict(level="exploration", quick_runs=runs, thorough_runs=thorough, quick_secs=240, thorough_secs=780,
        real=real, stub=stub, rule=rule or "one run = one seed: a fresh workload, fault sequence and schedule; non-trivial = at least one oracle evaluated and at least one scheduling choice or injected fault; distinct by hash of all its choices",
        required_probes=probes, assumptions=list(assumptions), race_runs=race, race_thorough_runs=race*40)

FT = "x/ftdc (all of it, instrumented)"
BI = "birch core (instrumented)"
READ = "source streams (fragmentation, delays, errors)"
WRITE = "destination writers (errors, short writes, delays)"
conf("C01", [FT, BI], [READ, WRITE, "application's bson marshaler for ReadSeries"], ["base","batch","dynamic","streaming","streaming-dynamic","writer","read-structured","read-flat","read-matrix","read-chunk-flat","read-chunk-structured","read-chunk-raw","read-series","reset","reset-schema","overfull","no-document","maps","long-constant","many-metrics"], runs=110000, race=4000)
conf("C03", [FT, BI], [READ], ["cut-at-boundary","cut-inside","read-structured","read-series","read-chunk-raw"], runs=120000, race=5000)
conf("C05", [FT, BI], [READ, "consumer"], ["never-iterated","consumer-panicked","stopped-while-source-blocked","stop-structured","stop-series"], runs=140000, race=6000)
conf("C02", [FT, BI], [WRITE], ["flush-failed","metadata-removed","close-failed","closed","reset","no-document","own-accord"]+["streaming","streaming-dynamic","document-writer","streaming-bson","streaming-json","streaming-dynamic-bson","streaming-dynamic-json"], runs=140000)
conf("C08", [FT, BI], [READ, WRITE], ["refused","overfull","tried-again","dynamic","streaming-dynamic","document-writer","streaming-dynamic-bson","streaming-dynamic-json","base","batch","streaming","uncompressed-bson","uncompressed-json","moved-metrics"], runs=100000)
conf("C04", [FT, BI], [READ], ["damage-reported","drained","contradiction","read-structured","read-series","read-chunk-raw"], runs=160000)
conf("C19", [BI, "fun/adt buffer pool"], [READ, WRITE], ["read-Document.ReadFrom","read-NewFromIOReader","read-DCE.ReadFrom","source-failed","clean-end","cut-inside","write-failed","written","values","reader-values","null-key","long-text","array-lookup"], runs=500000)
conf("C20", [BI, "fun/adt buffer pool"], [READ], ["too-deep","deep","rejected","accepted","rejected-deep"], runs=1500000)
conf("C24", [BI, "jsonx (instrumented)", "encoding/json"], [READ, WRITE], ["read-jsonx","read-JSONX","read-UnmarshalJSON","read-stream","stream-end","extended","source-failed","rejected","unspecified","write-failed","written","too-deep","deep","built-written","built-unwritable","built-nil","built-converted","copied"], runs=330000)
conf("C25", [BI, "x/blist (instrumented)", "fun/adt buffer pool"], [READ, WRITE], ["decode","decoded","decode-failed","copy","extend","elements","elements-kept","element-copy","set-value","nested","replaced","deleted","omitted","nil","array","map","map-kept","nested-view","concurrent","list","equal","unequal"], runs=600000, race=4000)
conf("C26", [BI, "x/ftdc/events custom points, x/ftdc/hdrhist, x/ftdc/util", "jsonx (instrumented)", "fun/adt buffer pool"], ["marshalers and unmarshalers (errors, broken documents)"], ["not-convertible","map-string","map-any","map-any-any","slice-any","slice","marshaler","document-marshaler","array","element","json","document","marshaler-cut-short","unmarshaler","document-unmarshaler","strings","map","exported","unknown-target","document-map","document-map-overwritten","object-id","too-small","encoded","custom","registered","registered-failing","unregistered","histogram"], runs=1500000, race=6000)
conf("C06", [FT, BI, "fun/erc"], ["underlying collector (recorded scenario)", "producers and cancellation"], ["refused","compared","resolved"], runs=500000, race=12000)
conf("C07", [FT, BI], ["wrapped collector (exclusion scenario)", "concurrent callers"], ["exclusion","linearized-base","linearized-batch","linearized-dynamic"], runs=450000, race=12000)
eventsKinds = [p+k for p in ("","concurrent-") for k in ("basic","passthrough","sampling","random","interval")]
EV = "x/ftdc/events (all of it, instrumented)"
SINK = "underlying ftdc collector (records points, fails, delays)"
conf("C09", [FT, EV], [SINK], ["passed-on","skipped","kept","persisted","interval"], runs=3000000)
conf("C10", [EV, BI], [SINK], ["grouped-persisted","grouped-kept","ended-raw","ended-single","ended-grouped","ended-histogram","ended-grouped-histogram","ended-single-histogram","reset","errors-reported"], runs=200000)
conf("C11", [EV, BI], [SINK, "concurrent callers"], ["points","ticked","ended","iteration-time","reset","errors-reported"], runs=200000, race=6000)
conf("C12", [EV], ["wrapped recorder", "timer", "concurrent callers"], ["serialised","shim"], runs=3000000, race=40000)
conf("C13", [EV, BI], [SINK, "concurrent callers"], ["kept","persisted","error-passed"]+eventsKinds, runs=250000, race=6000)
DISK = "file system (in memory, behind the syscall package: errors, torn and short writes, full disk, delays)"
conf("C21", [FT, BI, "encoding/csv, os, bufio"], [READ, WRITE, DISK], ["write-failed","schema-change-refused","written","file-failed","several-files","dumped","read-failed","malformed","converted","rows-before-failure"], runs=160000)
conf("C22", [BI], ["concurrent creators"], ["ids"], runs=3000000, race=20000)
conf("C14", ["x/ftdc/metrics (instrumented)", FT, BI, "os"], [DISK, "custom collectors (delay, panic)", "Go memory statistics (constant)"], ["parallel","sequential","several-files","file-failed","collector-panicked","cancelled","crashed","crash-survivors"], runs=50000, race=2500)
conf("C15", ["x/ftdc/metrics (instrumented)", FT, BI, "jsonx (instrumented)", "os, bufio"], [READ, DISK, "file change notification (in-memory stand-in for fsnotify)", "the process that appends"], ["reader","file","several-files","converted","reported","file-failed","malformed-line","read-failed","cancelled","blocked-source","followed","follow-reported","follow-cancelled"], runs=65000, race=3000)
MR = "x/mrpc (all of it, instrumented)"
conf("C23", ["x/ftdc/metrics (instrumented)", FT, BI], ["gopsutil (what is measured, errors, delays, vanishing processes)", "Go memory statistics (counted)", DISK], ["system","process","no-process","all-processes","descendants","system-recorded","process-recorded","devices-change","go-stats","rates","rates-together"], runs=30000, race=1500)
conf("C16", [MR, BI], [READ, WRITE, "connections (in-memory, both ends)"], ["OP_REPLY","OP_UPDATE","OP_INSERT","OP_QUERY","OP_GET_MORE","OP_DELETE","OP_KILL_CURSORS","OP_COMMAND","OP_COMMAND_REPLY","OP_MSG","query-as-command","checksum","large","read","sent","piped","receive-cancelled","send-cancelled","write-failed","receive-blocked","send-blocked"], runs=450000, race=12000)
conf("C17", [MR, BI], [READ], ["cut-at-boundary","cut-inside","transport-failed","accepted","rejected"], runs=1600000)
conf("C18", [MR, BI], ["network (in-memory listener and connections)", "handlers (delays, panics)", "clients"], ["served","half-closed","dropped","stopped","cancelled-early","accept-failed","cannot-listen","shell-answer","register-while-serving","bad-scope","fallback","routed","helpers"], runs=250000, race=8000)
