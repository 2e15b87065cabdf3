// Package guestio stands in for the standard streams of a plugin program: each
// guest runs on its own goroutine and has its own streams.
package guestio

import (
	"io"
	"unsafe"
)

// Streams of one guest.
type Streams interface {
	io.Reader // stdin
	io.Writer // stdout
	Exit(code int)
	GC()
}

var (
	all = map[unsafe.Pointer]Streams{}
)

// Bind gives the calling goroutine its streams.
func Bind(s Streams) func() {
	g := self()
	all[g] = s
	return func() { delete(all, g) }
}

func cur() Streams { return all[self()] }

func In() io.Reader  { return cur() }
func Out() io.Writer { return cur() }
func Err() io.Writer { return io.Discard }
func Exit(code int)  { cur().Exit(code) }
func GC()            { cur().GC() }
