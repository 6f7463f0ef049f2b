//go:build verifsched

// Program svc runs the scenarios of the stl2svx services, with the network replaced by calls.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"stldiceverif/sched/drv"
)

func main() {
	drv.Main(func(name string) *drv.Scenario {
		kind, arg, _ := strings.Cut(name, " ")
		switch kind {
		case "master":
			return masterScenario(parse[masterSpec](arg))
		case "agent":
			return agentScenario(parse[agentSpec](arg))
		}
		return nil
	})
}

func parse[T any](arg string) (v T) {
	if err := json.Unmarshal([]byte(arg), &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return v
}
