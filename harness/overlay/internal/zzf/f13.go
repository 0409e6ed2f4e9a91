package zzf

import (
	"errors"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/crypto"
	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/token"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/pkg/netauth/cache"
)

// One numbered implementation of each kind.
type (
	zzcr struct {
		env.Crypto
		n int
	}
	zztk struct {
		env.Tokens
		n int
	}
	zzkv struct {
		*env.Store
		n int
	}
	zzca struct{ n int }
)

func (*zzca) PutToken(string, string) error   { return nil }
func (*zzca) GetToken(string) (string, error) { return "", nil }
func (*zzca) DelToken(string) error           { return nil }

var errStart = errors.New("does not start")

//gosym:bounds each of the four kinds of implementation (storage, secrets, tokens, token cache); one to three (thorough four) registrations under symbolic names of 0..2 characters, possibly equal, each of which starts or does not; then a request for a symbolic name, twice
func VP_F13_registries() {
	most := 3
	if nd.Thorough() {
		most = 4
	}
	n := 1 + nd.Pick("registrations", most)
	kind := nd.Pick("kind", 4)
	names := make([]string, n)
	fails := make([]bool, n)
	made := make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		names[i] = nd.Str("name", 0, 2, "aA")
		fails[i] = nd.Bool("fails")
		start := func() error {
			made[i]++
			if fails[i] {
				return errStart
			}
			return nil
		}
		switch kind {
		case 0:
			db.RegisterKV(names[i], func(hclog.Logger) (db.KVStore, error) {
				if err := start(); err != nil {
					return nil, err
				}
				return &zzkv{env.NewStore(), i}, nil
			})
		case 1:
			crypto.Register(names[i], func(hclog.Logger) (crypto.EMCrypto, error) {
				if err := start(); err != nil {
					return nil, err
				}
				return &zzcr{n: i}, nil
			})
		case 2:
			token.Register(names[i], func(hclog.Logger) (token.Service, error) {
				if err := start(); err != nil {
					return nil, err
				}
				return &zztk{n: i}, nil
			})
		case 3:
			cache.RegisterTokenCacheFactory(names[i], func() (cache.TokenCache, error) {
				if err := start(); err != nil {
					return nil, err
				}
				return &zzca{n: i}, nil
			})
		}
	}
	ask := nd.Str("ask", 0, 2, "aA")
	distinct := 0
	for i := range names {
		if first(names, names[i]) == i {
			distinct++
		}
	}
	want := first(names, ask)
	if kind == 3 && ask == "" && distinct == 1 {
		// the documented default of the only cache there is
		want = 0
	}
	for round := 0; round < 2; round++ {
		got := -1
		var err error
		switch kind {
		case 0:
			var x db.KVStore
			x, err = db.NewKV(ask, hclog.NewNullLogger())
			if y, ok := x.(*zzkv); ok && err == nil {
				got = y.n
			}
		case 1:
			var x crypto.EMCrypto
			x, err = crypto.New(ask)
			if y, ok := x.(*zzcr); ok && err == nil {
				got = y.n
			}
		case 2:
			var x token.Service
			x, err = token.New(ask)
			if y, ok := x.(*zztk); ok && err == nil {
				got = y.n
			}
		case 3:
			var x cache.TokenCache
			x, err = cache.NewTokenCache(ask)
			if y, ok := x.(*zzca); ok && err == nil {
				got = y.n
			}
		}
		for i := range made {
			nd.Assert(i == want || made[i] == 0, "only the implementation asked for is started")
		}
		if want < 0 {
			nd.Reach("unknown")
			nd.Assert(err != nil && got == -1, "an unknown implementation is refused")
			continue
		}
		nd.Assert(made[want] == round+1, "the implementation asked for is started")
		if fails[want] {
			nd.Reach("does not start")
			nd.Assert(err == errStart && got == -1, "an implementation that does not start is refused")
			continue
		}
		nd.Reach("used")
		nd.Assert(err == nil && got == want, "the implementation first registered under the name is used")
	}
	if kind == 3 {
		l := cache.GetTokenCacheList()
		nd.Assert(len(l) == distinct, "the caches are listed")
		for _, x := range l {
			nd.Assert(first(names, x) >= 0, "the caches are listed")
		}
	}
}

func first(l []string, x string) int {
	for i := range l {
		if l[i] == x {
			return i
		}
	}
	return -1
}
