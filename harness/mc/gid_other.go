//go:build !amd64

package mc

import "runtime"

// goid identifies the calling goroutine while it lives.
func goid() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	// "goroutine 123 ["
	var n int64
	for _, ch := range b[10:] {
		if ch < '0' || ch > '9' {
			break
		}
		n = n*10 + int64(ch-'0')
	}
	return n
}
