//go:build emuov

package main

import (
	"fmt"
	"os"

	"verif/engine/echecks"
	"verif/engine/hk"
)

func main() {
	id := os.Args[1]
	f, ok := echecks.Registry[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	c := hk.NewCheck(id)
	f(c)
	os.Exit(c.Run())
}
