package mc

func getg() uintptr

// goid identifies the calling goroutine while it lives.
func goid() int64 { return int64(getg()) }
