// Package zzenv is the environment of the verification harnesses: a
// key-value store with fault injection, a crypto engine, a token service and
// helpers that assemble the real server on top of them.
package zzenv

import (
	"context"
	"errors"
	"path"
	"sort"
	"sync"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/tree"
	"github.com/netauth/netauth/internal/zzlog"
	nd "github.com/netauth/netauth/internal/zznd"

	"github.com/netauth/netauth/internal/crypto"
	pb "github.com/netauth/protocol"
)

// ErrFault is what an injected storage fault returns.
var ErrFault = errors.New("injected storage fault")

// Store is a key-value store whose accesses can be made to fail and at which
// another client's operation can be interposed.
type Store struct {
	mu sync.Mutex

	K  []string
	V  [][]byte
	EF func(db.Event)

	N      int    // accesses so far
	FailAt int    // access number that fails, -1 for none
	Failed string // kind of the access that failed
	Before int    // successful writes and deletions before the failed access
	Puts   int    // successful writes
	Dels   int
	Hook   func(n int, op, key string) // called before each access
	After  func()                      // called after each access that went through
	Quiet  bool                        // no events
	Broken string                      // key whose value cannot be read
}

// NewStore returns an empty store.
func NewStore() *Store { return &Store{FailAt: -1} }

func (s *Store) access(op, key string) bool {
	s.mu.Lock()
	n := s.N
	s.N++
	s.mu.Unlock()
	if s.Hook != nil {
		s.Hook(n, op, key)
	}
	if s.FailAt >= 0 && n == s.FailAt {
		s.Failed = op
		s.Before = s.Puts + s.Dels
		return true
	}
	return false
}

func (s *Store) after() {
	if s.After != nil {
		s.After()
	}
}

func (s *Store) find(k string) int {
	for i := range s.K {
		if s.K[i] == k {
			return i
		}
	}
	return -1
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func (s *Store) fire(k string, del bool) {
	if s.EF == nil || s.Quiet {
		return
	}
	switch {
	case hasPrefix(k, "/entities/"):
		t := db.EventEntityUpdate
		if del {
			t = db.EventEntityDestroy
		}
		s.EF(db.Event{Type: t, PK: path.Base(k)})
	case hasPrefix(k, "/groups/"):
		t := db.EventGroupUpdate
		if del {
			t = db.EventGroupDestroy
		}
		s.EF(db.Event{Type: t, PK: path.Base(k)})
	}
}

// RawPut writes without counting, faults or events.
func (s *Store) RawPut(k string, v []byte) {
	if i := s.find(k); i >= 0 {
		s.V[i] = v
		return
	}
	s.K = append(s.K, k)
	s.V = append(s.V, v)
}

// RawGet reads without counting or faults.
func (s *Store) RawGet(k string) ([]byte, bool) {
	if i := s.find(k); i >= 0 {
		return s.V[i], true
	}
	return nil, false
}

// Put implements db.KVStore.
func (s *Store) Put(k string, v []byte) error {
	if s.access("put", k) {
		return ErrFault
	}
	s.mu.Lock()
	s.Puts++
	s.RawPut(k, v)
	s.mu.Unlock()
	s.fire(k, false)
	s.after()
	return nil
}

// Get implements db.KVStore.
func (s *Store) Get(k string) ([]byte, error) {
	if s.access("get", k) {
		return nil, ErrFault
	}
	defer s.after()
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Broken != "" && k == s.Broken {
		return nil, ErrFault
	}
	if i := s.find(k); i >= 0 {
		return s.V[i], nil
	}
	return nil, db.ErrNoValue
}

// Del implements db.KVStore.
func (s *Store) Del(k string) error {
	if s.access("del", k) {
		return ErrFault
	}
	s.mu.Lock()
	i := s.find(k)
	if i < 0 {
		s.mu.Unlock()
		return db.ErrNoValue
	}
	s.Dels++
	nk := make([]string, 0, len(s.K))
	nv := make([][]byte, 0, len(s.K))
	for j := range s.K {
		if j != i {
			nk = append(nk, s.K[j])
			nv = append(nv, s.V[j])
		}
	}
	s.K, s.V = nk, nv
	s.mu.Unlock()
	s.fire(k, true)
	s.after()
	return nil
}

// Keys implements db.KVStore.
func (s *Store) Keys(f string) ([]string, error) {
	if s.access("keys", f) {
		return nil, ErrFault
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	out := []string{}
	for i := range s.K {
		if m, _ := path.Match(f, s.K[i]); m {
			out = append(out, s.K[i])
		}
	}
	return out, nil
}

// Close implements db.KVStore.
func (s *Store) Close() error { return nil }

// Capabilities implements db.KVStore.
func (s *Store) Capabilities() []db.KVCapability { return []db.KVCapability{db.KVMutable} }

// SetEventFunc implements db.KVStore.
func (s *Store) SetEventFunc(f func(db.Event)) { s.EF = f }

// Snap is a copy of the store's contents.
type Snap struct {
	K []string
	V [][]byte
}

// Snapshot copies the contents.
func (s *Store) Snapshot() Snap {
	n := Snap{}
	n.K = append(n.K, s.K...)
	n.V = append(n.V, s.V...)
	return n
}

// Same tells whether the store holds exactly what the snapshot holds.
func (s *Store) Same(o Snap) bool {
	if len(s.K) != len(o.K) {
		return false
	}
	for i := range s.K {
		j := -1
		for k := range o.K {
			if o.K[k] == s.K[i] {
				j = k
			}
		}
		if j < 0 || !RecEq(s.K[i], s.V[i], o.V[j]) {
			return false
		}
	}
	return true
}

// SameBut is Same, ignoring key k.
func (s *Store) SameBut(o Snap, k string) bool {
	for i := range s.K {
		if s.K[i] == k {
			continue
		}
		j := -1
		for x := range o.K {
			if o.K[x] == s.K[i] {
				j = x
			}
		}
		if j < 0 || !RecEq(s.K[i], s.V[i], o.V[j]) {
			return false
		}
	}
	for x := range o.K {
		if o.K[x] != k && s.find(o.K[x]) < 0 {
			return false
		}
	}
	return true
}

// RecEq compares two stored records by meaning.
func RecEq(key string, a, b []byte) bool {
	if hasPrefix(key, "/entities") {
		x, y := &pb.Entity{}, &pb.Entity{}
		e1, e2 := proto.Unmarshal(a, x), proto.Unmarshal(b, y)
		if e1 != nil || e2 != nil {
			return string(a) == string(b)
		}
		sets(x.GetMeta().GetGroups(), y.GetMeta().GetGroups(), x.GetMeta().GetKeys(), y.GetMeta().GetKeys())
		return proto.Equal(x, y)
	}
	if hasPrefix(key, "/groups") {
		x, y := &pb.Group{}, &pb.Group{}
		e1, e2 := proto.Unmarshal(a, x), proto.Unmarshal(b, y)
		if e1 != nil || e2 != nil {
			return string(a) == string(b)
		}
		sets(x.GetExpansions(), y.GetExpansions())
		return proto.Equal(x, y)
	}
	return string(a) == string(b)
}

// sets sorts lists that are stored in no particular order.
func sets(ls ...[]string) {
	for _, l := range ls {
		for i := range l {
			if !nd.IsConcrete(l[i]) {
				return
			}
		}
	}
	for _, l := range ls {
		sort.Strings(l)
	}
}

// PutEntity seeds an entity.
func (s *Store) PutEntity(e *pb.Entity) {
	b, err := proto.Marshal(e)
	if err != nil {
		panic("seed entity: " + err.Error())
	}
	s.RawPut("/entities/"+e.GetID(), b)
}

// PutGroup seeds a group.
func (s *Store) PutGroup(g *pb.Group) {
	b, err := proto.Marshal(g)
	if err != nil {
		panic("seed group: " + err.Error())
	}
	s.RawPut("/groups/"+g.GetName(), b)
}

// Entity reads the stored entity, nil if there is none.
func (s *Store) Entity(id string) *pb.Entity {
	b, ok := s.RawGet("/entities/" + id)
	if !ok {
		return nil
	}
	e := &pb.Entity{}
	if err := proto.Unmarshal(b, e); err != nil {
		return nil
	}
	return e
}

// Group reads the stored group, nil if there is none.
func (s *Store) Group(id string) *pb.Group {
	b, ok := s.RawGet("/groups/" + id)
	if !ok {
		return nil
	}
	g := &pb.Group{}
	if err := proto.Unmarshal(b, g); err != nil {
		return nil
	}
	return g
}

// Crypto is a crypto engine that hands out opaque handles.
type Crypto struct {
	mu     sync.Mutex
	H      []string // handles issued
	S      []string // their secrets
	Fail   bool     // SecureSecret fails
	Calls  int
	Checks int
}

var handleNames = []string{"$h0", "$h1", "$h2", "$h3", "$h4", "$h5", "$h6", "$h7", "$h8", "$h9"}

// Seed issues a handle for a secret.
func (c *Crypto) Seed(s string) string {
	h := handleNames[len(c.H)]
	c.H = append(c.H, h)
	c.S = append(c.S, s)
	return h
}

// SecureSecret implements crypto.EMCrypto.
func (c *Crypto) SecureSecret(s string) (string, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Calls++
	if c.Fail {
		return "", crypto.ErrInternalError
	}
	return c.Seed(s), nil
}

// VerifySecret implements crypto.EMCrypto.
func (c *Crypto) VerifySecret(s, h string) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Checks++
	for i := range c.H {
		if c.H[i] == h {
			if c.S[i] == s {
				return nil
			}
			return crypto.ErrAuthorizationFailure
		}
	}
	return crypto.ErrAuthorizationFailure
}

// Opens tells whether handle h was issued for secret s.
func (c *Crypto) Opens(s, h string) bool {
	for i := range c.H {
		if c.H[i] == h {
			return c.S[i] == s
		}
	}
	return false
}

// Tokens is a token service that hands out opaque tokens.
type Tokens struct {
	mu    sync.Mutex
	T     []string
	C     []token.Claims
	Cfg   []token.Config
	Fail  bool
	Calls int
}

var tokenNames = []string{"tok0", "tok1", "tok2", "tok3", "tok4", "tok5"}

// Generate implements token.Service.
func (t *Tokens) Generate(c token.Claims, cfg token.Config) (string, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Calls++
	if t.Fail {
		return "", token.ErrInternalError
	}
	n := tokenNames[len(t.T)]
	t.T = append(t.T, n)
	t.C = append(t.C, c)
	t.Cfg = append(t.Cfg, cfg)
	return n, nil
}

// Validate implements token.Service.
func (t *Tokens) Validate(s string) (token.Claims, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for i := range t.T {
		if t.T[i] == s {
			return t.C[i], nil
		}
	}
	return token.Claims{}, token.ErrTokenInvalid
}

// World is the real database layer, tree manager and RPC server over the
// environment above.
type World struct {
	KV *Store
	Cr *Crypto
	// Engine replaces Cr from the next Boot on
	Engine crypto.EMCrypto
	Tok    *Tokens
	DB     *db.DB
	Tree   *tree.Manager
	Srv    *rpc2.Server
	Log    hclog.Logger

	Before func() // called before each call of the server into the tree
}

var started bool

// Start runs the start-up callbacks once.
func Start() {
	if !started {
		started = true
		startup.DoCallbacks()
	}
}

var worldKV *Store

// NewWorld assembles a server over kv.
func NewWorld(kv *Store) *World {
	Start()
	w := &World{KV: kv, Cr: &Crypto{}, Tok: &Tokens{}, Log: zzlog.New()}
	w.Boot()
	return w
}

// Boot (re)creates database, tree and server over the same store, as a
// server start does.
func (w *World) Boot() {
	worldKV = w.KV
	db.RegisterKV("zzstore", func(hclog.Logger) (db.KVStore, error) { return worldKV, nil })
	d, err := db.New("zzstore")
	if err != nil {
		panic("db.New: " + err.Error())
	}
	w.DB = d
	var c crypto.EMCrypto = w.Cr
	if w.Engine != nil {
		c = w.Engine
	}
	t, err := tree.New(d, c, w.Log)
	if err != nil {
		panic("tree.New: " + err.Error())
	}
	w.Tree = t
	w.Srv = rpc2.New(rpc2.Refs{TokenService: w.Tok, Tree: &steps{Manager: t, w: w}}, w.Log)
}

// Load replays all stored objects to the listeners as a server start does.
func (w *World) Load() {
	if err := w.DB.EventUpdateAll(); err != nil {
		panic("EventUpdateAll: " + err.Error())
	}
	w.KV.N, w.KV.Puts, w.KV.Dels = 0, 0, 0
}

// Ctx is a request context carrying a token.
func Ctx(tok string) context.Context {
	return metadata.NewIncomingContext(context.Background(), metadata.Pairs("authorization", tok))
}

// CtxWith returns the context of a requester holding the given claims.
func (w *World) CtxWith(id string, caps ...pb.Capability) context.Context {
	t, err := w.Tok.Generate(token.Claims{EntityID: id, Capabilities: caps}, token.Config{})
	if err != nil {
		panic("token")
	}
	return Ctx(t)
}

// S returns a pointer to s.
func S(s string) *string { return &s }

// I returns a pointer to i.
func I(i int32) *int32 { return &i }

// B returns a pointer to b.
func B(b bool) *bool { return &b }

// AllCaps lists every defined capability.
var AllCaps = []pb.Capability{
	pb.Capability_CREATE_ENTITY, pb.Capability_DESTROY_ENTITY, pb.Capability_MODIFY_ENTITY_META, pb.Capability_MODIFY_ENTITY_KEYS,
	pb.Capability_CHANGE_ENTITY_SECRET, pb.Capability_LOCK_ENTITY, pb.Capability_UNLOCK_ENTITY, pb.Capability_CREATE_GROUP,
	pb.Capability_DESTROY_GROUP, pb.Capability_MODIFY_GROUP_META, pb.Capability_MODIFY_GROUP_MEMBERS, pb.Capability_GLOBAL_ROOT,
}

// SymCap is a symbolic capability drawn from the defined ones.
func SymCap(name string) pb.Capability {
	v := nd.Int32(name)
	ok := false
	for _, c := range AllCaps {
		ok = nd.Or(ok, v == int32(c))
	}
	nd.Assume(ok)
	return pb.Capability(v)
}
