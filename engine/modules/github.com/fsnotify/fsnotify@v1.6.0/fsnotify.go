// Package fsnotify is a stand-in that watches the simulated file system.
package fsnotify

import (
	"errors"
	"fmt"
	"strings"
)

type Op uint32

const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
)

var (
	ErrNonExistentWatch = errors.New("can't remove non-existent watch")
	ErrEventOverflow    = errors.New("fsnotify queue overflow")
	ErrClosed           = errors.New("fsnotify: watcher already closed")
)

type Event struct {
	Name string
	Op   Op
}

func (o Op) Has(h Op) bool     { return o&h == h }
func (e Event) Has(op Op) bool { return e.Op.Has(op) }
func (e Event) String() string { return fmt.Sprintf("%-13s %q", e.Op, e.Name) }
func (o Op) String() string {
	var s []string
	for i, n := range []string{"CREATE", "WRITE", "REMOVE", "RENAME", "CHMOD"} {
		if o&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	return strings.Join(s, "|")
}

type Watcher struct {
	Events chan Event
	Errors chan error

	sim SimWatcher
}

// SimWatcher is the simulator's side of a watcher.
type SimWatcher interface {
	Add(name string) error
	Remove(name string) error
	Close() error
	WatchList() []string
}

// SimNew makes the simulator's side of a watcher.
var SimNew func(events chan Event, errs chan error) (SimWatcher, error)

func NewWatcher() (*Watcher, error) {
	if SimNew == nil {
		return nil, errors.New("fsnotify: not simulated")
	}
	w := &Watcher{Events: make(chan Event), Errors: make(chan error)}
	var err error
	if w.sim, err = SimNew(w.Events, w.Errors); err != nil {
		return nil, err
	}
	return w, nil
}

func (w *Watcher) Add(name string) error    { return w.sim.Add(name) }
func (w *Watcher) Remove(name string) error { return w.sim.Remove(name) }
func (w *Watcher) Close() error             { return w.sim.Close() }
func (w *Watcher) WatchList() []string      { return w.sim.WatchList() }
