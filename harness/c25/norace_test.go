//go:build !race

package c25

const (
	histories = 500
	parallels = 300
)
