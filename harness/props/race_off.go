//go:build !race

package props

const raceEnabled = false

func raceErrors() int { return 0 }
