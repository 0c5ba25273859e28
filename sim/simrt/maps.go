package simrt

import (
	"cmp"
	"slices"
)

// ZeroKV returns zero values of m's key and value types.
func ZeroKV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// Keys returns m's keys in the order this run iterates over it: Go leaves map iteration order
// unspecified, so every order is legal; the simulator picks one from the run's seed.
func Keys[M ~map[K]V, K cmp.Ordered, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	slices.Sort(ks)
	if s := mapOrder(); s != 0 {
		var r Rng
		r.Seed(s)
		for i := len(ks) - 1; i > 0; i-- {
			j := int(r.Next() % uint64(i+1))
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

//go:norace
func mapOrder() uint64 {
	if !active || mapSeed == 0 {
		return 0
	}
	g := cur
	if g == nil {
		return 0
	}
	mapCtr++
	return mapSeed + mapCtr*0x9e3779b97f4a7c15 | 1
}

// SortMaps makes the rest of the run iterate over maps in sorted order: for workloads that compare
// two executions of code whose result may legally depend on the order.
//
//go:norace
func SortMaps() { mapSeed = 0 }
