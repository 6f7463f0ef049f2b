package main

import (
	_ "stldiceverif/checks"
	"stldiceverif/hx"
)

func main() { hx.Main() }
