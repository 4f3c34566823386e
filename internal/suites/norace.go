//go:build !race

package suites

const raceEnabled = false

func raceErrors() int { return 0 }
