//go:build verifsched

// Program core runs the scenarios of packages stl, binvox and vshell.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"stldiceverif/sched/drv"
)

func main() {
	drv.Main(func(name string) *drv.Scenario {
		kind, arg, _ := strings.Cut(name, " ")
		switch kind {
		case "merge":
			return mergeScenario(parse[mergeSpec](arg))
		case "voxelize":
			return voxelizeScenario(parse[voxelizeSpec](arg))
		case "share":
			return shareScenario(parse[shareSpec](arg))
		case "write":
			return writeScenario(parse[writeSpec](arg))
		}
		return selftest(name)
	})
}

func parse[T any](arg string) (v T) {
	if err := json.Unmarshal([]byte(arg), &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return v
}
