// gevverif drives the real gev code under generated, hostile and stress
// workloads and judges every execution with monitors. One binary acts as the
// runner (per property) and as the worker (one scenario in its own process).
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gevverif run PROP | worker JOBFILE REPORT | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runProperty(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "worker":
		os.Exit(workerMain(os.Args[2], os.Args[3]))
	case "logchild":
		os.Exit(logChild(os.Args[2]))
	case "needs-race":
		if p := properties[os.Args[2]]; p != nil {
			for _, j := range append(p.jobs("quick"), p.jobs("thorough")...) {
				if j.Race {
					os.Exit(0)
				}
			}
		}
		os.Exit(1)
	case "list":
		for _, p := range propertyIDs() {
			fmt.Println(p, len(properties[p].jobs("quick")))
		}
	default:
		os.Exit(2)
	}
}
