package main

import (
	"verif/harness/pbt"
	_ "verif/harness/props"
)

func main() { pbt.Main() }
