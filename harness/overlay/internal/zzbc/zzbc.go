// Package zzbc stands in for the bitcask storage engine: an ordered list of
// keys with injected engine faults. Its functions keep the contracts of
// github.com/prologic/bitcask v0.3.10.
package zzbc

import "errors"

// Errors of the engine.
var (
	ErrKeyNotFound     = errors.New("error: key not found")
	ErrKeyTooLarge     = errors.New("error: key too large")
	ErrEmptyKey        = errors.New("error: empty key")
	ErrValueTooLarge   = errors.New("error: value too large")
	ErrChecksumFailed  = errors.New("error: checksum failed")
	ErrDatabaseLocked  = errors.New("error: database locked")
	ErrMergeInProgress = errors.New("error: merge already in progress")
	ErrFault           = errors.New("input/output error")
)

// Option configures the engine.
type Option func(*Bitcask) error

// Bitcask is the engine.
type Bitcask struct {
	Path   string
	K      [][]byte
	V      [][]byte
	MaxK   uint32
	MaxV   uint64
	Synced bool
	N      int
	FailAt int
	Closed bool
	open   []chan []byte
	log    []record // what the operating system has
	safe   int      // how much of it is on the disk
}

// record is an entry of the data file; a deletion has no value.
type record struct {
	k, v []byte
	del  bool
}

var disk = map[string][]record{}

var (
	// Last is the engine opened last.
	Last *Bitcask
	// OpenFails makes Open fail.
	OpenFails bool
)

// Reset empties the disk.
func Reset() { disk = map[string][]record{} }

// Restart ends the process; what it wrote is still there unless the machine
// loses power as well.
func Restart(power bool) {
	if power {
		Last.log = Last.log[:Last.safe]
	}
	disk[Last.Path] = Last.log
}

// WithAutoRecovery is an option.
func WithAutoRecovery(bool) Option { return func(*Bitcask) error { return nil } }

// WithMaxDatafileSize is an option.
func WithMaxDatafileSize(int) Option { return func(*Bitcask) error { return nil } }

// WithMaxKeySize is an option.
func WithMaxKeySize(n uint32) Option { return func(b *Bitcask) error { b.MaxK = n; return nil } }

// WithMaxValueSize is an option.
func WithMaxValueSize(n uint64) Option { return func(b *Bitcask) error { b.MaxV = n; return nil } }

// WithSync is an option.
func WithSync(s bool) Option { return func(b *Bitcask) error { b.Synced = s; return nil } }

// Open opens the engine.
func Open(path string, options ...Option) (*Bitcask, error) {
	if OpenFails {
		return nil, ErrDatabaseLocked
	}
	b := &Bitcask{Path: path, FailAt: -1, MaxK: 64, MaxV: 65536}
	for _, o := range options {
		if err := o(b); err != nil {
			return nil, err
		}
	}
	// an entry without a value is a deletion to the engine
	for _, r := range disk[path] {
		if r.del || len(r.v) == 0 {
			b.remove(r.k)
		} else {
			b.set(r.k, r.v)
		}
	}
	b.log = append(b.log, disk[path]...)
	b.safe = len(b.log)
	Last = b
	return b, nil
}

func (b *Bitcask) fault() bool {
	n := b.N
	b.N++
	return n == b.FailAt
}

func (b *Bitcask) find(key []byte) int {
	for i := range b.K {
		if string(b.K[i]) == string(key) {
			return i
		}
	}
	return -1
}

// Get reads a value.
func (b *Bitcask) Get(key []byte) ([]byte, error) {
	if b.Closed {
		return nil, ErrFault
	}
	i := b.find(key)
	if i < 0 {
		return nil, ErrKeyNotFound
	}
	if b.fault() {
		return nil, ErrChecksumFailed
	}
	return append([]byte{}, b.V[i]...), nil
}

// Has tells whether a key exists.
func (b *Bitcask) Has(key []byte) bool { return b.find(key) >= 0 }

// Put stores a value.
func (b *Bitcask) Put(key, value []byte) error {
	if len(key) == 0 {
		return ErrEmptyKey
	}
	if b.MaxK > 0 && uint32(len(key)) > b.MaxK {
		return ErrKeyTooLarge
	}
	if b.MaxV > 0 && uint64(len(value)) > b.MaxV {
		return ErrValueTooLarge
	}
	if b.Closed || b.fault() {
		return ErrFault
	}
	b.log = append(b.log, record{k: append([]byte{}, key...), v: append([]byte{}, value...)})
	if b.Synced {
		b.safe = len(b.log)
	}
	b.set(key, value)
	return nil
}

func (b *Bitcask) set(key, value []byte) {
	v := append([]byte{}, value...)
	if i := b.find(key); i >= 0 {
		b.V[i] = v
		return
	}
	b.K = append(b.K, append([]byte{}, key...))
	b.V = append(b.V, v)
}

// Delete removes a key; a missing one is no error.
func (b *Bitcask) Delete(key []byte) error {
	if b.Closed || b.fault() {
		return ErrFault
	}
	b.log = append(b.log, record{k: append([]byte{}, key...), del: true})
	b.remove(key)
	return nil
}

func (b *Bitcask) remove(key []byte) {
	i := b.find(key)
	if i < 0 {
		return
	}
	var k, v [][]byte
	for j := range b.K {
		if j != i {
			k, v = append(k, b.K[j]), append(v, b.V[j])
		}
	}
	b.K, b.V = k, v
}

// DeleteAll removes all keys.
func (b *Bitcask) DeleteAll() error {
	if b.fault() {
		return ErrFault
	}
	for _, k := range b.K {
		b.log = append(b.log, record{k: k, del: true})
	}
	b.K, b.V = nil, nil
	return nil
}

// Scan visits the keys with a prefix.
func (b *Bitcask) Scan(prefix []byte, f func(key []byte) error) error {
	for _, k := range b.K {
		if len(k) >= len(prefix) && string(k[:len(prefix)]) == string(prefix) {
			if err := f(k); err != nil {
				return err
			}
		}
	}
	return nil
}

// Len is the number of keys.
func (b *Bitcask) Len() int { return len(b.K) }

// Keys returns a channel of all keys. The engine stays locked against writers
// until the channel is drained.
func (b *Bitcask) Keys() chan []byte {
	ch := make(chan []byte, len(b.K))
	for _, k := range b.K {
		ch <- k
	}
	close(ch)
	b.open = append(b.open, ch)
	return ch
}

// Held tells whether an enumeration was left unfinished, which blocks every
// later write for good.
func (b *Bitcask) Held() bool {
	for _, c := range b.open {
		if len(c) > 0 {
			return true
		}
	}
	return false
}

// Fold visits all keys.
func (b *Bitcask) Fold(f func(key []byte) error) error {
	for _, k := range b.K {
		if err := f(k); err != nil {
			return err
		}
	}
	return nil
}

// Close closes the engine.
func (b *Bitcask) Close() error {
	if b.fault() {
		return ErrFault
	}
	b.Closed = true
	b.safe = len(b.log)
	return nil
}

// Sync flushes.
func (b *Bitcask) Sync() error {
	if b.fault() {
		return ErrFault
	}
	b.safe = len(b.log)
	return nil
}

// Merge compacts.
func (b *Bitcask) Merge() error { return nil }

// Reopen reloads.
func (b *Bitcask) Reopen() error { return nil }
