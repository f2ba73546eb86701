package harness

import (
	"errors"
	"fmt"
	"sort"
	"sync"

	rcdb "github.com/sourcenetwork/raccoondb"
)

// MapKV is a key value store whose accesses can be observed, refused and delayed, and whose content can be copied.
// It behaves as the stores zanzi is used with: a missing key reads as nil, an iterator sees the store as it was when it
// was opened and reports its failure through Error.
type MapKV struct {
	mu sync.Mutex
	m  map[string][]byte

	// hook is called before every access. An error refuses the access.
	hook func(a kvAccess) error
	// after is called after a write took effect; an error is returned in spite of it
	after func(a kvAccess) error

	open   int // iterators not closed
	writes []kvAccess
	log    bool
}

type kvAccess struct {
	Kind string // get, has, set, del, iter, next
	Key  string
	Val  []byte
}

func (a kvAccess) isWrite() bool { return a.Kind == "set" || a.Kind == "del" }

func newMapKV() *MapKV { return &MapKV{m: map[string][]byte{}} }

func (s *MapKV) clone() *MapKV {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := newMapKV()
	for k, v := range s.m {
		out.m[k] = v // values are never changed in place
	}
	return out
}

// applyWrites plays logged writes
func (s *MapKV) applyWrites(ws []kvAccess) {
	for _, w := range ws {
		if w.Kind == "set" {
			s.m[w.Key] = w.Val
		} else {
			delete(s.m, w.Key)
		}
	}
}

func (s *MapKV) access(kind string, key []byte) error {
	if s.hook != nil {
		return s.hook(kvAccess{Kind: kind, Key: string(key)})
	}
	return nil
}

var errEmptyKey = errors.New("key cannot be empty")
var errNilValue = errors.New("value cannot be nil")

func (s *MapKV) Get(key []byte) ([]byte, error) {
	if err := s.access("get", key); err != nil {
		return nil, err
	}
	if len(key) == 0 {
		return nil, errEmptyKey
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[string(key)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}

func (s *MapKV) Has(key []byte) (bool, error) {
	if err := s.access("has", key); err != nil {
		return false, err
	}
	if len(key) == 0 {
		return false, errEmptyKey
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.m[string(key)]
	return ok, nil
}

func (s *MapKV) write(kind string, key, val []byte) error {
	if err := s.access(kind, key); err != nil {
		return err
	}
	if len(key) == 0 {
		return errEmptyKey
	}
	if kind == "set" && val == nil {
		return errNilValue
	}
	a := kvAccess{Kind: kind, Key: string(key), Val: append([]byte{}, val...)}
	s.mu.Lock()
	s.applyWrites([]kvAccess{a})
	if s.log {
		s.writes = append(s.writes, a)
	}
	s.mu.Unlock()
	if s.after != nil {
		return s.after(a)
	}
	return nil
}

func (s *MapKV) Set(key, val []byte) error { return s.write("set", key, val) }

func (s *MapKV) Delete(key []byte) error { return s.write("del", key, nil) }

func (s *MapKV) Iterator(start, end []byte) rcdb.Iterator {
	it := &mapIter{s: s}
	err := s.access("iter", start)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.open++
	if err != nil {
		it.err = err
		return it
	}
	for k := range s.m {
		if (start == nil || k >= string(start)) && (end == nil || k < string(end)) {
			it.keys = append(it.keys, k)
		}
	}
	sort.Strings(it.keys)
	for _, k := range it.keys {
		it.vals = append(it.vals, s.m[k])
	}
	return it
}

type mapIter struct {
	s      *MapKV
	keys   []string
	vals   [][]byte
	i      int
	err    error
	closed bool
}

func (i *mapIter) Valid() bool { return i.err == nil && !i.closed && i.i < len(i.keys) }

func (i *mapIter) Next() {
	if !i.Valid() {
		panic("Next of an iterator which is not valid")
	}
	if err := i.s.access("next", []byte(i.keys[i.i])); err != nil {
		i.err = err
		return
	}
	i.i++
}

func (i *mapIter) Key() []byte {
	if !i.Valid() {
		panic("Key of an iterator which is not valid")
	}
	return []byte(i.keys[i.i])
}

func (i *mapIter) Value() []byte {
	if !i.Valid() {
		panic("Value of an iterator which is not valid")
	}
	return append([]byte{}, i.vals[i.i]...)
}

func (i *mapIter) Error() error { return i.err }

func (i *mapIter) Close() error {
	if !i.closed {
		i.closed = true
		i.s.mu.Lock()
		i.s.open--
		i.s.mu.Unlock()
	}
	return nil
}

var _ rcdb.KVStore = (*MapKV)(nil)

type faultError struct{ n int }

func (e *faultError) Error() string { return fmt.Sprintf("injected failure of store access %d", e.n) }
