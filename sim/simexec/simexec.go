//go:build simruntime

// Package simexec has the API of package os/exec for programs that exist only
// in the simulation.
package simexec

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	rexec "os/exec"
	"path"
	"strings"
	"sync"
	"syscall"
	"time"

	os "verif.local/sim/simos"
)

// Process is a running program.
type Process struct {
	Name   string
	Args   []string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	Pid    int
	killed chan struct{}
	once   sync.Once
}

type dead struct{}

// Sleep passes time unless the process is killed.
func (p *Process) Sleep(d time.Duration) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
	case <-p.killed:
		panic(dead{})
	}
}

// Kill ends the process.
func (p *Process) Kill() error {
	p.once.Do(func() { close(p.killed) })
	return nil
}

func (p *Process) Signal(any) error { return p.Kill() }

// Abort ends the process as a signal does.
func (p *Process) Abort() { p.Kill(); panic(dead{}) }

// Program runs as p and returns the exit code.
type Program func(p *Process) int

const bin = "/usr/local/bin/"

var (
	// Installed finds a program by its name.
	Installed func(name string) Program
	// FailStart makes starting a program fail.
	FailStart func(name string) error
	// Running is the number of processes that have not ended.
	Running int
	pids    int
)

func Reset() { Installed, FailStart, Running, pids = nil, nil, 0, 0 }

var (
	ErrNotFound  = rexec.ErrNotFound
	ErrDot       = rexec.ErrDot
	ErrWaitDelay = rexec.ErrWaitDelay
)

type Error = rexec.Error

// ExitError is the end of a program without success.
type ExitError struct {
	code   int
	Stderr []byte
}

func (e *ExitError) Error() string {
	if e.code < 0 {
		return "signal: killed"
	}
	return fmt.Sprintf("exit status %d", e.code)
}
func (e *ExitError) ExitCode() int  { return e.code }
func (e *ExitError) Success() bool  { return false }
func (e *ExitError) Exited() bool   { return e.code >= 0 }
func (e *ExitError) String() string { return e.Error() }

func find(name string) Program {
	if Installed == nil || path.IsAbs(name) && path.Dir(name)+"/" != bin {
		return nil
	}
	return Installed(path.Base(name))
}

func LookPath(name string) (string, error) {
	if find(name) == nil {
		return "", &Error{Name: name, Err: ErrNotFound}
	}
	return bin + path.Base(name), nil
}

// Cmd is a program to run.
type Cmd struct {
	Path      string
	Args      []string
	Env       []string
	Dir       string
	Stdin     io.Reader
	Stdout    io.Writer
	Stderr    io.Writer
	Process   *Process
	Err       error
	Cancel    func() error
	WaitDelay time.Duration

	ctx     context.Context
	ended   chan struct{}
	code    int
	stop    chan struct{}
	waited  bool
	closers []io.Closer
	outs    []io.Closer
}

func Command(name string, args ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, args...)}
	if !strings.Contains(name, "/") {
		p, err := LookPath(name)
		if err != nil {
			c.Err = err
		} else {
			c.Path = p
		}
	}
	return c
}

func CommandContext(ctx context.Context, name string, args ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, args...)
	c.ctx = ctx
	c.Cancel = func() error { return c.Process.Kill() }
	return c
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return c.Env }

// limit keeps what a killed process writes from arriving.
type limit struct {
	p *Process
	w io.Writer
}

func (l limit) Write(b []byte) (int, error) {
	select {
	case <-l.p.killed:
		panic(dead{})
	default:
	}
	if l.w == nil {
		return len(b), nil
	}
	return l.w.Write(b)
}

func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	run := find(c.Path)
	if run == nil {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOENT}
	}
	if FailStart != nil {
		if err := FailStart(path.Base(c.Path)); err != nil {
			return &os.PathError{Op: "fork/exec", Path: c.Path, Err: err}
		}
	}
	pids++
	in := c.Stdin
	if in == nil {
		in = strings.NewReader("")
	}
	p := &Process{Name: path.Base(c.Path), Args: c.Args, Pid: pids, Stdin: in, killed: make(chan struct{})}
	p.Stdout, p.Stderr = limit{p, c.Stdout}, limit{p, c.Stderr}
	c.Process, c.ended, c.stop = p, make(chan struct{}), make(chan struct{})
	Running++
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(dead); !ok {
					panic(r)
				}
				c.code = -1
			}
			Running--
			for _, x := range c.outs {
				x.Close()
			}
			close(c.ended)
		}()
		c.code = run(p)
	}()
	if c.ctx != nil {
		go func() {
			select {
			case <-c.ctx.Done():
				c.Cancel()
			case <-c.stop:
			}
		}()
	}
	return nil
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	<-c.ended
	close(c.stop)
	for _, x := range c.closers {
		x.Close()
	}
	if c.code != 0 {
		return &ExitError{code: c.code}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var out, errs bytes.Buffer
	c.Stdout = &out
	if c.Stderr == nil {
		c.Stderr = &errs
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok {
		ee.Stderr = errs.Bytes()
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	return out.Bytes(), err
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	r, w := io.Pipe()
	c.Stdin = r
	c.outs = append(c.outs, r)
	return w, nil
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	r, w := io.Pipe()
	c.Stdout = w
	c.outs = append(c.outs, w)
	c.closers = append(c.closers, r)
	return r, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	r, w := io.Pipe()
	c.Stderr = w
	c.outs = append(c.outs, w)
	c.closers = append(c.closers, r)
	return r, nil
}
