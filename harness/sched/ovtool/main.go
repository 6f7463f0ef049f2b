// Program ovtool builds the programs of scenarios into a directory, for development.
package main

import (
	"os"

	"stldiceverif/hx"
)

func main() {
	c := &hx.Ctx{Scratch: os.Args[1], Verif: "/verif"}
	c.SchedProg("sched/core", false).Build(os.Args[1] + "/core")
	c.SchedProg("sched/svc", true).Build(os.Args[1] + "/svc")
}
