// Command mc runs the checks.
package main

import (
	"verif/internal/mc"
	"verif/internal/suites"
)

func main() {
	if suites.NoExprMain() || suites.HistoryMain() {
		return
	}
	mc.Main(suites.All())
}
