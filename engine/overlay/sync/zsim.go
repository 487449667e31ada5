package sync

// SimPoolClear empties every Pool, so that a run does not see what the runs
// before it left there. Only one goroutine may be running.
func SimPoolClear() { poolCleanup(); poolCleanup() }
