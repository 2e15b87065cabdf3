//go:build simruntime

// Package simnotify has the API of github.com/fsnotify/fsnotify over simos,
// with the behaviour of its inotify backend: a kernel queue per watcher,
// merged identical consecutive events, overflow, one reader goroutine sending
// on an unbuffered channel, watches dropped when their directory goes away.
package simnotify

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

type Event struct {
	Name string
	Op   Op
}

type Op uint32

const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
)

var (
	ErrNonExistentWatch = errors.New("fsnotify: can't remove non-existent watch")
	ErrEventOverflow    = errors.New("fsnotify: queue or buffer overflow")
	ErrClosed           = errors.New("fsnotify: watcher already closed")

	// MaxQueue is the length of the kernel queue; events beyond it are lost
	// and an overflow is reported.
	MaxQueue = 16384
	// MaxOverflows, if positive, is how often that happens.
	MaxOverflows = 0
	// Open counts watchers not yet closed, Overflows the overflows.
	Open, Overflows, Made int
	// FailNew makes the next NewWatcher fail; FailAdd fails an Add.
	FailNew error
	FailAdd func(name string) error
	// All watchers of the run.
	All []*Watcher
)

// Reset forgets the watchers of earlier runs.
func Reset() {
	MaxOverflows = 0
	MaxQueue, Open, Overflows, Made, FailNew, FailAdd, All = 16384, 0, 0, 0, nil, nil, nil
}

func (o Op) String() string {
	var b strings.Builder
	for i, n := range []string{"CREATE", "WRITE", "REMOVE", "RENAME", "CHMOD"} {
		if o.Has(1 << i) {
			b.WriteString("|" + n)
		}
	}
	if b.Len() == 0 {
		return "[no events]"
	}
	return b.String()[1:]
}

func (o Op) Has(h Op) bool     { return o&h != 0 }
func (e Event) Has(op Op) bool { return e.Op.Has(op) }
func (e Event) String() string { return fmt.Sprintf("%-13s %q", e.Op.String(), e.Name) }

type addOpt func()

func WithBufferSize(int) addOpt { return func() {} }

type raw struct {
	ev       Event
	overflow bool
	err      error
	moved    string // the watched path with this new name has moved
}

type Watcher struct {
	Events chan Event
	Errors chan error

	mu       sync.Mutex
	watches  map[string]string // absolute path to the name given
	queue    []raw
	wake     chan struct{}
	done     chan struct{}
	doneResp chan struct{}
	closed   bool
}

func NewWatcher() (*Watcher, error) { return NewBufferedWatcher(0) }

func NewBufferedWatcher(sz uint) (*Watcher, error) {
	if err := FailNew; err != nil {
		FailNew = nil
		return nil, err
	}
	w := &Watcher{
		Events: make(chan Event, sz), Errors: make(chan error),
		watches: map[string]string{}, wake: make(chan struct{}, 1), done: make(chan struct{}), doneResp: make(chan struct{}),
	}
	Open++
	Made++
	All = append(All, w)
	simos.Watchers = append(simos.Watchers, w.notify)
	go w.readEvents()
	return w, nil
}

var ops = map[string]Op{"create": Create, "write": Write, "remove": Remove, "rename": Rename, "chmod": Chmod}

// notify runs in the goroutine that changed the file, like the kernel.
func (w *Watcher) notify(e simos.Event) {
	if w.closed {
		return
	}
	if e.Op == "moved" {
		if _, ok := w.watches[e.Path]; ok {
			w.put(raw{moved: e.Path})
		}
		return
	}
	op := ops[e.Op]
	if name, ok := w.watches[path.Dir(e.Path)]; ok {
		w.put(raw{ev: Event{Name: name + "/" + path.Base(e.Path), Op: op}})
	}
	name, ok := w.watches[e.Path]
	switch {
	case op == Rename:
		// watches follow what they watch, under the old name
		for p, n := range w.watches {
			if strings.HasPrefix(p, e.Path+"/") {
				delete(w.watches, p)
				w.watches[e.To+strings.TrimPrefix(p, e.Path)] = n
			}
		}
		if ok {
			delete(w.watches, e.Path)
			w.watches[e.To] = name
		}
	case ok && op == Remove:
		w.put(raw{ev: Event{Name: name, Op: op}})
		delete(w.watches, e.Path)
	case ok && op&(Chmod|Write) != 0:
		w.put(raw{ev: Event{Name: name, Op: op}})
	}
}

func (w *Watcher) put(r raw) {
	if n := len(w.queue); n > 0 {
		if r.err == nil && !r.overflow && w.queue[n-1] == r {
			return // the kernel merges it
		}
		if n >= MaxQueue && (MaxOverflows == 0 || Overflows < MaxOverflows || w.queue[n-1].overflow) {
			if !w.queue[n-1].overflow {
				Overflows++
				w.queue = append(w.queue, raw{overflow: true})
			}
			return
		}
	}
	w.queue = append(w.queue, r)
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

// Break ends the event source as if reading it had failed for good.
func (w *Watcher) Break(err error) { w.put(raw{err: err}) }

// CloseSource closes the channels the way Close does, as seen by a reader
// that did not call Close.
func (w *Watcher) CloseSource() { w.Close() }

func (w *Watcher) Close() error {
	w.mu.Lock()
	if w.closed {
		w.mu.Unlock()
		return nil
	}
	w.closed = true
	Open--
	close(w.done)
	w.mu.Unlock()
	<-w.doneResp
	return nil
}

func (w *Watcher) Add(name string) error { return w.AddWith(name) }
func (w *Watcher) AddWith(name string, opts ...addOpt) error {
	if w.closed {
		return ErrClosed
	}
	simrt.Yield()
	if FailAdd != nil {
		if err := FailAdd(name); err != nil {
			return err
		}
	}
	name = filepath.Clean(name)
	if _, err := simos.Stat(name); err != nil {
		var pe *fs.PathError
		if errors.As(err, &pe) {
			return pe.Err
		}
		return err
	}
	w.watches[simos.Clean(name)] = name
	return nil
}

func (w *Watcher) Remove(name string) error {
	if w.closed {
		return nil
	}
	p := simos.Clean(name)
	if _, ok := w.watches[p]; !ok {
		return fmt.Errorf("%w: %s", ErrNonExistentWatch, filepath.Clean(name))
	}
	delete(w.watches, p)
	return nil
}

func (w *Watcher) WatchList() []string {
	if w.closed {
		return nil
	}
	var out []string
	for _, n := range w.watches {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// Watched reports whether changes in the directory are seen.
func Watched(dir string) bool {
	for _, w := range All {
		if _, ok := w.watches[simos.Clean(dir)]; ok && !w.closed {
			return true
		}
	}
	return false
}

func (w *Watcher) readEvents() {
	defer func() {
		close(w.doneResp)
		close(w.Errors)
		close(w.Events)
	}()
	for {
		select {
		case <-w.done:
			return
		case <-w.wake:
		}
		for len(w.queue) > 0 {
			// one read takes a batch
			batch := w.queue
			w.queue = nil
			for _, r := range batch {
				simrt.Yield()
				if r.moved != "" {
					name, ok := w.watches[r.moved]
					if !ok {
						continue
					}
					delete(w.watches, r.moved)
					r.ev = Event{Name: name, Op: Rename}
				}
				switch {
				case r.overflow:
					select {
					case w.Errors <- ErrEventOverflow:
					case <-w.done:
						return
					}
				case r.err != nil:
					select {
					case w.Errors <- r.err:
					case <-w.done:
						return
					}
				default:
					select {
					case w.Events <- r.ev:
					case <-w.done:
						return
					}
				}
			}
		}
	}
}
