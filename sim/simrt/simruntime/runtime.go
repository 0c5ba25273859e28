// Package simruntime stands in for the parts of package runtime whose answer depends on the
// machine.
package simruntime

// CPUs is the number of CPUs the simulated machine has in this run.
var CPUs = 4

func NumCPU() int { return CPUs }

func GOMAXPROCS(n int) int { return CPUs }
