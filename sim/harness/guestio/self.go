//go:build simruntime

package guestio

import (
	"runtime"
	"unsafe"
)

func self() unsafe.Pointer { return runtime.SimG() }
