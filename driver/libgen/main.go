// Command libgen runs generators through the library the way the command does, given the command's options after the
// first argument: once, twice with a runtime each ("twice"), or twice with the same runtime ("again").
package main

import (
	"fmt"
	"os"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/markers"
	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

func main() {
	reg := &markers.Registry{}
	def := func(name string, v interface{}) {
		d, err := markers.MakeDefinition(name, markers.DescribesPackage, v)
		vc.Must(err)
		vc.Must(reg.Register(d))
	}
	rules := map[string]genall.OutputRule{"dir": genall.OutputToDirectory(""), "none": genall.OutputToNothing, "stdout": genall.OutputToStdout, "artifacts": genall.OutputArtifacts{}}
	for n, g := range vc.AllGenerators {
		def(n, g)
		for r, v := range rules {
			def("output:"+n+":"+r, v)
		}
	}
	for r, v := range rules {
		def("output:"+r, v)
	}
	vc.Must(genall.RegisterOptionsMarkers(reg))
	bad := false
	for n := 1; n <= 2; n++ {
		rt, err := genall.FromOptions(reg, os.Args[2:])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		bad = rt.Run()
		if os.Args[1] == "again" {
			bad = rt.Run()
			break
		}
		if os.Args[1] != "twice" {
			break
		}
	}
	if bad {
		os.Exit(1)
	}
}
