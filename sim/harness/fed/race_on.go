//go:build simruntime && race

package fed

const raceEnabled = true
