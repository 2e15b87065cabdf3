//go:build simruntime

package main

import (
	"verif.local/harness/fed"
	"verif.local/harness/wk"
)

func main() { wk.Main(fed.Engine{}) }
