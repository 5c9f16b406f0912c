package main

import (
	"cmp"
	"maps"
	"slices"
)

func sortedKeys[K cmp.Ordered, V any](m map[K]V) []K { return slices.Sorted(maps.Keys(m)) }

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}
