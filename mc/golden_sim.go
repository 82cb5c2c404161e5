//go:build sim
// +build sim

package main

func goldenTasks(tier string) []Task { return goldenList(tier, nil) }

func goldenMain(dir string) int { return 2 }
