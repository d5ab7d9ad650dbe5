//go:build race
// +build race

package main

// the race detector reserves address space
func limitMemory() {}
