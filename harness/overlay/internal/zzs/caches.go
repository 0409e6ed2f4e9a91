package zzs

import (
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zzos"
	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/fs"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

//gosym:vfs

func tokenCache(kind string) cache.TokenCache {
	c, err := cache.NewTokenCache(kind)
	if err != nil {
		panic(err)
	}
	return c
}

// cacheHistory runs operations for symbolic owners, then looks one up.
func cacheHistory(c cache.TokenCache, steps int, alphabet string, max, asked int) {
	m := &model{}
	toks := []string{"t0 long", "t1", "", "t3 longer"}
	for i := 0; i < steps; i++ {
		o := nd.Str("owner", 1, max, alphabet)
		if i == 0 || nd.Bool("put") {
			nd.Assert(c.PutToken(o, toks[i]) == nil, "storing a token succeeds")
			m.put(o, toks[i])
		} else {
			nd.Assert(c.DelToken(o) == nil, "deleting a token succeeds")
			m.del(o)
		}
	}
	p := nd.Choose("dot", "", "./") + nd.Str("asked", 1, asked, alphabet)
	t, err := c.GetToken(p)
	if i := m.find(p); i >= 0 {
		nd.Reach("cached")
		nd.Assert(err == nil && t == m.v[i], "a lookup returns the owner's latest token")
		return
	}
	nd.Reach("uncached")
	nd.Assert(err == cache.ErrNoCachedToken && t == "", "a lookup reports that an owner has no token")
}

//gosym:bounds histories of a store and one (thorough two) more stores or deletions for symbolic owners of 1..3 bytes of [ab./], then a lookup
func VP_E09_memory() {
	cacheHistory(tokenCache("memory"), depth(2, 3), "ab./", 3, 2)
}

//gosym:bounds histories of a store and one (thorough two) more stores or deletions for symbolic owners of 1..2 bytes of [bB./] (thorough 1..3 of [abB./%]) on a virtual file system, then a lookup for one of up to 4 bytes
func VP_E09_files() {
	zzos.Reset()
	if nd.Thorough() {
		cacheHistory(tokenCache("fs"), 3, "abB./%", 3, 2)
		return
	}
	cacheHistory(tokenCache("fs"), 2, "bB./", 2, 1)
}

//gosym:bounds owners of 1..5 (thorough 6) bytes of [a./]: every path touched lies directly in the cache directory; the token file, new or left there with any permissions, is readable by its owner only
func VP_E09_private() {
	zzos.Reset()
	c := tokenCache("fs")
	o := nd.Str("owner", 1, depth(5, 6), "a./")
	if nd.Bool("old file") {
		c.PutToken(o, "old")
		for _, f := range zzos.Files() {
			zzos.Chmod(f, zzos.FileMode(nd.IntRange("mode", 0600, 0777)))
		}
	}
	zzos.Touched = nil
	zzos.Watch = func() {
		for _, f := range zzos.Files() {
			if d, ok := zzos.Raw(f); ok && len(d) > 0 && d[0] == 's' {
				nd.Assert(zzos.RawMode(f)&077 == 0, "a token is at no time readable by others")
			}
		}
	}
	err := c.PutToken(o, "secret token")
	nd.Assert(err == nil, "storing a token succeeds")
	n := 0
	for _, f := range zzos.Files() {
		if d, ok := zzos.Raw(f); ok && len(d) > 0 {
			n++
			nd.Assert(zzos.RawMode(f)&077 == 0, "a token file is readable by its owner only")
		}
	}
	nd.Assert(n == 1, "a token is stored in one file")
	for _, t := range zzos.Touched {
		i := len(t.Path) - 1
		for i >= 0 && t.Path[i] != '/' {
			i--
		}
		nd.Assert(t.Path[:i] == "/tmp", "no owner reaches a path outside the cache directory")
	}
	nd.Reach("stored")
}

//gosym:bounds both caches, two owners that are strange texts a careless comparison would take for each other, tokens that are strange texts, with blanks, line ends and no UTF-8 among them: one or both stored, then one deleted
func VP_E09_strange() {
	zzos.Reset()
	c := tokenCache([]string{"fs", "memory"}[nd.Pick("cache", 2)])
	a := env.Strange[nd.Pick("owner", len(env.Strange)-1)]
	l := env.Alike(a)
	k := nd.Pick("alike", len(l))
	b := l[k]
	t1 := env.Strange[(k+nd.Pick("token", 2)*16)%len(env.Strange)]
	t2 := "t" + t1
	nd.Assert(c.PutToken(a, t1) == nil, "storing a token succeeds")
	both := nd.Bool("both")
	if both {
		nd.Reach("both")
		nd.Assert(c.PutToken(b, t2) == nil, "storing a token succeeds")
	}
	look := func(o, want string, there bool) {
		t, err := c.GetToken(o)
		if there {
			nd.Assert(err == nil && t == want, "a lookup returns the owner's latest token")
		} else {
			nd.Assert(err == cache.ErrNoCachedToken && t == "", "a lookup reports that an owner has no token")
		}
	}
	look(a, t1, true)
	look(b, t2, both)
	del := nd.Bool("delete first")
	if del {
		nd.Assert(c.DelToken(a) == nil, "deleting a token succeeds")
	} else {
		nd.Assert(c.DelToken(b) == nil, "deleting a token succeeds")
	}
	look(a, t1, !del)
	look(b, t2, both && del)
}
