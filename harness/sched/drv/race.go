//go:build verifsched && race

package drv

import "runtime"

// Races is the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }
