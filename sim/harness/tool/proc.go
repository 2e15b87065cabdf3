//go:build simruntime

package tool

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"

	gen "verif.local/harness/mains/generator"
	ls "verif.local/harness/mains/langserver"
	lint "verif.local/harness/mains/linter"
	protoc "verif.local/harness/mains/protoc"
	"verif.local/sim/simlog"
	"verif.local/sim/simos"
)

var programs = map[string]func(){
	"generator":  gen.Main,
	"linter":     lint.Main,
	"langserver": ls.Main,
	"protoc":     protoc.Main,
}

// Proc is a program started in the simulated system.
type Proc struct {
	Done chan struct{}
	Code int
	Err  buffer
	Out  buffer
	Died string // panic of the main goroutine
}

type buffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *buffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// start runs a program's main function as a process. in and out replace the
// standard streams if not nil.
func start(prog string, in, out *simos.File, args ...string) *Proc {
	p := &Proc{Done: make(chan struct{}), Code: -1}
	os.Args = append([]string{prog}, args...)
	simos.Args = os.Args
	if in != nil {
		simos.Stdin = in
	}
	if out != nil {
		simos.Stdout = out
	} else {
		simos.Stdout = simos.NewStream("/dev/stdout", nil, &p.Out)
	}
	simos.Stderr = simos.NewStream("/dev/stderr", nil, &p.Err)
	simlog.Reset()
	simos.ExitFn = func(code int) {
		if p.Code == -1 {
			p.Code = code
		}
		runtime.Goexit()
	}
	go func() {
		defer close(p.Done)
		defer func() {
			if e := recover(); e != nil {
				p.Died = fmt.Sprintf("%v\n%s", e, debug.Stack())
				p.Code = 2
			}
		}()
		programs[prog]()
		if p.Code == -1 {
			p.Code = 0
		}
	}()
	return p
}
