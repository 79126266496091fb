package main

import (
	"os"
	"sync"
)

var (
	silenceMu    sync.Mutex
	silenceDepth int
	realStdout   *os.File
)

// silence discards what the library prints until the returned function is called.
func silence() func() {
	silenceMu.Lock()
	defer silenceMu.Unlock()
	if silenceDepth == 0 {
		realStdout = os.Stdout
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = f
		}
	}
	silenceDepth++
	return func() {
		silenceMu.Lock()
		defer silenceMu.Unlock()
		silenceDepth--
		if silenceDepth == 0 {
			if os.Stdout != realStdout {
				os.Stdout.Close()
			}
			os.Stdout = realStdout
		}
	}
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
