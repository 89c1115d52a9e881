package main

import (
	"fmt"
	"os"

	"verif/engine/hk"
	"verif/engine/nchecks"
	"verif/engine/sym"

	"verif/engine/gosym"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: verifn PROPERTY")
		os.Exit(2)
	}
	id := os.Args[1]
	f, ok := nchecks.Registry[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	gosym.PruneSolver = []sym.SolverCmd{sym.Portfolio[0]}
	c := hk.NewCheck(id)
	f(c)
	os.Exit(c.Run())
}
