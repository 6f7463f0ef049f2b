//go:build verifsched && !race

package drv

// Races is the number of data races reported so far.
func Races() int { return 0 }
