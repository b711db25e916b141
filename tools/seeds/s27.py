id='S27-withlock-panic'
prop='P29'
pkg='base'
needs='a callback that panics and a caller that recovers'
breaks='the source stays locked for ever after a callback panicked'
edits=[('base/source.go','''	s.lk.Lock()
	defer s.lk.Unlock()
	f(s.src)
''','''	s.lk.Lock()
	f(s.src)
	s.lk.Unlock()
''')]
demo='''package base

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	s := NewLockedSource(1)
	func() {
		defer func() { recover() }()
		s.WithLock(func(Source) { panic("x") })
	}()
	done := make(chan bool, 1)
	go func() { s.Uint64(); done <- true }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("locked")
	}
}
'''
