package main

import (
	"fmt"
	"os"

	"verif/engine/checks"
	"verif/engine/hk"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: verifa PROPERTY")
		os.Exit(2)
	}
	id := os.Args[1]
	f, ok := checks.Registry[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	c := hk.NewCheck(id)
	f(c)
	os.Exit(c.Run())
}
