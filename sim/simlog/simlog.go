//go:build simruntime

// Package simlog has the API of package log on top of simos: output goes to
// the simulated process's standard error and Fatal ends that process.
package simlog

import (
	"fmt"
	"io"
	rlog "log"

	os "verif.local/sim/simos"
)

const (
	Ldate         = rlog.Ldate
	Ltime         = rlog.Ltime
	Lmicroseconds = rlog.Lmicroseconds
	Llongfile     = rlog.Llongfile
	Lshortfile    = rlog.Lshortfile
	LUTC          = rlog.LUTC
	Lmsgprefix    = rlog.Lmsgprefix
	LstdFlags     = rlog.LstdFlags
)

type errw struct{}

func (errw) Write(b []byte) (int, error) { return os.Stderr.Write(b) }

var std = rlog.New(errw{}, "", 0)

type Logger = rlog.Logger

func New(w io.Writer, prefix string, flag int) *Logger { return rlog.New(w, prefix, flag) }
func Default() *Logger                                 { return std }
func Writer() io.Writer                                { return std.Writer() }
func SetOutput(w io.Writer)                            { std.SetOutput(w) }
func SetFlags(f int)                                   {}
func Flags() int                                       { return LstdFlags }
func SetPrefix(p string)                               { std.SetPrefix(p) }
func Prefix() string                                   { return std.Prefix() }
func Output(d int, s string) error                     { return std.Output(d, s) }
func Print(v ...any)                                   { std.Output(2, fmt.Sprint(v...)) }
func Printf(f string, v ...any)                        { std.Output(2, fmt.Sprintf(f, v...)) }
func Println(v ...any)                                 { std.Output(2, fmt.Sprintln(v...)) }
func Fatal(v ...any)                                   { Print(v...); os.Exit(1) }
func Fatalf(f string, v ...any)                        { Printf(f, v...); os.Exit(1) }
func Fatalln(v ...any)                                 { Println(v...); os.Exit(1) }
func Panic(v ...any)                                   { s := fmt.Sprint(v...); Print(s); panic(s) }
func Panicf(f string, v ...any)                        { s := fmt.Sprintf(f, v...); Print(s); panic(s) }
func Panicln(v ...any)                                 { s := fmt.Sprintln(v...); Print(s); panic(s) }

// Reset undoes SetOutput and SetPrefix.
func Reset() { std = rlog.New(errw{}, "", 0) }
