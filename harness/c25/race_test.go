//go:build race

package c25

// with the race detector, mostly the parallel histories
const (
	histories = 40
	parallels = 150
)
