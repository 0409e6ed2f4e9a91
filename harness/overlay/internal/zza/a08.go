package zza

import (
	"strings"

	"github.com/netauth/netauth/internal/crypto"
	"github.com/netauth/netauth/internal/crypto/bcrypt"
	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/tree"
	env "github.com/netauth/netauth/internal/zzenv"
	"github.com/netauth/netauth/internal/zzlog"
	nd "github.com/netauth/netauth/internal/zznd"
)

// record keeps everything logged or printed from here on.
func record() {
	zzlog.Start()
	l := zzlog.New()
	db.SetParentLogger(l)
	tree.SetParentLogger(l)
	token.SetParentLogger(l)
	crypto.SetParentLogger(l)
	health.SetParentLogger(l)
}

// credential is a secret that begins with a letter that occurs nowhere else.
func credential(l string, n int) string { return "~" + nd.Str(l, n-1, n-1, "A-Z0-9") }

func silent(secrets ...string) {
	for _, s := range secrets {
		nd.Assert(!zzlog.Has(s), "no secret is logged or printed")
	}
	nd.Assert(!zzlog.Has("$h"), "no stored secret is logged or printed")
	nd.Assert(!zzlog.Has("tok0") && !zzlog.Has("tok1") && !zzlog.Has("bad-tok"), "no token is logged or printed")
}

//gosym:bounds 2 stored entities (full; thorough: or bare) with symbolic locks, one of the 35 requests with a symbolic 1 byte name, full or minimal contents, a symbolic 8 byte secret wherever it carries one, with a token with every capability, a token with none, a bad token or no token; with the first of them the crypto engine, token service or a symbolic storage access may fail; everything logged at any level (by server, tree, database, and the packages logging for themselves) and printed is searched for the secrets, stored handles and tokens
func VP_A08_requests() {
	record()
	kv := env.NewStore()
	w := env.NewWorld(kv)
	kind := env.Full
	if nd.Thorough() && nd.Bool("bare") {
		kind = env.None
	}
	target := nameAC("name")
	for i, id := range []string{"a", "b"} {
		kv.PutEntity(w.Shaped(kind, id, int32(i+1), "~QQQ"+id, nd.Bool("locked."+id)))
	}
	kv.PutGroup(env.ShapedGroup(kind, "a", 1, "a"))
	w.Load()
	sec := credential("sec", 8)
	if nd.Bool("right") {
		w.Cr.S[0] = sec
	}
	r := w.AnyOf(env.RPCs, &env.Gen{Name: func(l string) string {
		if strings.HasSuffix(l, ".id") || strings.HasSuffix(l, "target") || l == "group.name" {
			return target
		}
		return "a"
	}, Shapes: 2, NoKV: true, Text: func(l string) string {
		if strings.HasSuffix(l, "secret") {
			return sec
		}
		return "t"
	}})
	tok := w.CtxWith("a", env.AllCaps...)
	who := nd.Pick("token", 4)
	switch who {
	case 1:
		w.Tok.C[0].Capabilities = nil
		nd.Reach("unprivileged")
	case 2:
		tok = env.Ctx("bad-tok")
	case 3:
		tok = env.Ctx("")
	}
	fault := 0
	if who == 0 {
		fault = nd.Pick("fault", 4)
	}
	switch fault {
	case 1:
		w.Cr.Fail = true
	case 2:
		w.Tok.Fail = true
	case 3:
		kv.FailAt = nd.IntRange("at", 0, 5)
	}
	_, err := r.Call(tok)
	if err != nil {
		nd.Reach("refused")
	} else {
		nd.Reach("done")
	}
	if zzlog.N() > 0 {
		nd.Reach("logged")
	}
	nd.NoteBool("ok", err == nil)
	silent(sec, "~QQQ")
}

//gosym:bounds a bootstrap and a restart of the server, the entity present or not, symbolic 8 byte secret, crypto or a symbolic storage access may fail
func VP_A08_bootstrap() {
	record()
	kv := env.NewStore()
	w := env.NewWorld(kv)
	kv.PutEntity(w.Shaped(env.Full, "a", 1, "~QQQ", nd.Bool("locked")))
	w.Load()
	sec := credential("sec", 8)
	w.Cr.Fail = nd.Bool("fail")
	if nd.Bool("fault") {
		kv.FailAt = nd.IntRange("at", 0, 5)
	}
	w.Tree.Bootstrap(nameAC("name"), sec)
	kv.FailAt = -1
	if nd.Bool("restart") {
		nd.Reach("restarted")
		w.Boot()
		w.Load()
	}
	w.Tree.Bootstrap(nameAC("again"), sec)
	nd.Assert(zzlog.N() > 0, "something is logged")
	silent(sec, "~QQQ")
}

//gosym:bounds the bcrypt engine at cost 4 or at the invalid cost 32 (every hashing fails), a secret of 8 or 75 bytes secured and verified with the same or another secret or a damaged hash
func VP_A08_bcrypt() {
	record()
	env.SetConf("crypto.bcrypt.cost", []int{4, 32}[nd.Pick("cost", 2)])
	e, err := bcrypt.New(zzlog.New())
	nd.Assert(err == nil, "the engine starts")
	n := []int{8, 75}[nd.Pick("len", 2)]
	sec := credential("sec", n)
	h, err := e.SecureSecret(sec)
	if err != nil {
		nd.Reach("refused")
		h = "$2a$h7"
	}
	switch nd.Pick("check", 3) {
	case 0:
		err = e.VerifySecret(sec, h)
	case 1:
		err = e.VerifySecret(credential("other", 8), h)
		sec = sec[:8]
	case 2:
		err = e.VerifySecret(sec, "$2a$junk")
	}
	if err == nil {
		nd.Reach("verified")
	}
	nd.Assert(!zzlog.Has(sec), "no secret is logged or printed")
	nd.Assert(!zzlog.Has("$2a$"), "no hash is logged or printed")
}
