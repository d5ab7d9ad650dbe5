//go:build !race
// +build !race

package main

import "syscall"

func limitMemory() {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30})
}
