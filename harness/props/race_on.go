//go:build race

package props

import "runtime"

const raceEnabled = true

func raceErrors() int { return runtime.RaceErrors() }
