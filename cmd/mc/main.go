// Command mc decides one property.
package main

import (
	_ "verif/checks"
	"verif/internal/mc"
)

func main() { mc.Main() }
