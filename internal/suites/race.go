//go:build race

package suites

import "runtime"

const raceEnabled = true

func raceErrors() int { return runtime.RaceErrors() }
