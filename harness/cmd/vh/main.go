package main

import (
	"verif/harness/checks"
	"verif/harness/h"
)

func main() { h.Main(checks.All()) }
