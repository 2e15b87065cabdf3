//go:build simruntime

package main

import (
	"verif.local/harness/plug"
	"verif.local/harness/wk"
)

func main() { wk.Main(plug.Engine{}) }
