//go:build simruntime

package main

import (
	"os"

	"verif.local/harness/tool"
	"verif.local/harness/wk"
)

func main() {
	os.Setenv("PATH", "")
	wk.Main(tool.Engine{})
}
