package zzj

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"strings"
	"time"

	jwtgo "github.com/dgrijalva/jwt-go"
	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/token/jwt"
	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"
	"github.com/netauth/netauth/internal/zzos"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

const (
	pubFile  = "/d/keys/token.pem"
	privFile = "/d/keys/token.key"
)

func clock(f func() time.Time) {
	zznet.Clock = f
	env.Now = f
	jwtgo.TimeFunc = f
}

func configure(generate bool) {
	zzos.Reset()
	zzos.MkdirAll("/d", 0755)
	env.SetConf("core.conf", "/d")
	env.SetConf("token.jwt.generate", generate)
	env.SetConf("token.jwt.bits", 1024)
}

// service starts a token service that generates its keys.
func service() token.Service {
	configure(true)
	s, err := jwt.NewRSA(hclog.NewNullLogger())
	nd.Assert(err == nil, "the token service starts")
	return s
}

// own reads the server's private key.
func own() *rsa.PrivateKey {
	b, _ := zzos.Raw(privFile)
	p, _ := pem.Decode(b)
	nd.Assert(p != nil, "the private key is stored")
	k, err := x509.ParsePKCS1PrivateKey(p.Bytes)
	nd.Assert(err == nil, "the private key is stored")
	return k
}

func other() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		panic(err)
	}
	return k
}

func parts(tok string) []string { return strings.Split(tok, ".") }

func make1(m jwtgo.SigningMethod, c jwt.RSAToken, key interface{}) []string {
	s, err := jwtgo.NewWithClaims(m, c).SignedString(key)
	if err != nil {
		panic("cannot sign: " + err.Error())
	}
	return parts(s)
}

func claims(id string, caps ...pb.Capability) token.Claims {
	return token.Claims{EntityID: id, Capabilities: caps}
}

func sameCaps(a, b []pb.Capability) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

//gosym:bounds tokens of every algorithm the library knows by family (RSA with every hash, RSA-PSS, HMAC keyed with the server's public key, elliptic curves, none), signed with the server's key or another, intact or with header, claims or signature of another token or cut off, every 32-bit validity window and clock reading, any capability
func VP_A04_accept() {
	svc := service()
	mine := own()
	now := int64(nd.Uint32("now"))
	clock(func() time.Time { return time.Unix(now, 0) })
	iat, nbf, exp := int64(nd.Uint32("iat")), int64(nd.Uint32("nbf")), int64(nd.Uint32("exp"))
	nd.Assume(nd.And(nbf > 0, nd.And(exp > 0, iat > 0)))
	c := jwt.RSAToken{Claims: claims("a", env.SymCap("cap"))}
	if nd.Bool("no capabilities") {
		c.Capabilities = nil
	}
	c.IssuedAt, c.NotBefore, c.ExpiresAt, c.Id = iat, nbf, exp, "a"

	m := nd.Pick("method", 9)
	family := []string{"RSA", "RSA", "RSA", "PSS", "PSS", "MAC", "MAC", "EC", "none"}[m]
	method := []jwtgo.SigningMethod{jwtgo.SigningMethodRS512, jwtgo.SigningMethodRS256, jwtgo.SigningMethodRS384, jwtgo.SigningMethodPS512, jwtgo.SigningMethodPS256,
		jwtgo.SigningMethodHS512, jwtgo.SigningMethodHS256, jwtgo.SigningMethodES256, jwtgo.SigningMethodNone}[m]
	isMine := false
	var t []string
	switch family {
	case "RSA", "PSS":
		k := mine
		if isMine = !nd.Bool("other key"); !isMine {
			k = other()
		}
		t = make1(method, c, k)
	case "MAC":
		b, _ := zzos.Raw(pubFile)
		if nd.Bool("der") {
			p, _ := pem.Decode(b)
			b = p.Bytes
		}
		t = make1(method, c, b)
	case "EC":
		t = make1(method, c, ecKey())
	case "none":
		t = make1(method, c, jwtgo.UnsafeAllowNoneSignatureType)
	}
	bad := false
	forged := c
	forged.EntityID = "root"
	genuine := jwt.RSAToken{Claims: claims("b"), StandardClaims: c.StandardClaims}
	switch nd.Choose("tamper", "no", "claims", "header", "signature", "unsigned", "segments") {
	case "claims":
		bad = true
		t[1] = make1(jwtgo.SigningMethodRS512, forged, other())[1]
	case "header":
		bad = true
		alt := jwtgo.SigningMethod(jwtgo.SigningMethodNone)
		var k interface{} = jwtgo.UnsafeAllowNoneSignatureType
		if nd.Bool("mac") {
			alt, k = jwtgo.SigningMethodHS512, []byte("x")
		}
		nd.Assume(method.Alg() != alt.Alg())
		t[0] = make1(alt, forged, k)[0]
		if nd.Bool("drop") {
			t[2] = ""
		}
	case "signature":
		bad = true
		t[2] = make1(jwtgo.SigningMethodRS512, genuine, mine)[2]
	case "unsigned":
		bad = true
		t[2] = ""
	case "segments":
		bad = true
		t = t[:nd.Pick("n", 3)]
	}
	got, err := svc.Validate(strings.Join(t, "."))
	if err != nil {
		nd.Assert(got.EntityID == "" && len(got.Capabilities) == 0, "a refused token has no claims")
		if method.Alg() == "RS512" && isMine && !bad {
			nd.Reach("out of window")
			nd.Assert(nd.Or(now < nbf, nd.Or(now > exp, now < iat)), "a token of the server is accepted within its window")
		} else {
			nd.Reach("refused")
		}
		return
	}
	nd.Reach("accepted")
	nd.Assert(!bad, "a modified token is refused")
	nd.Assert(isMine, "a token that was not signed with the server's RSA key is refused")
	nd.Assert(nd.And(now >= nbf, now <= exp), "a token outside its window is refused")
	nd.Assert(got.EntityID == "a" && sameCaps(got.Capabilities, c.Capabilities), "the claims are the ones that were signed")
}

//gosym:bounds tokens issued for a login at any 32-bit second and fraction (0 or .999999999 s, seconds may pass while it is issued), with the default lifetime or one of 1 s, 1.5 s, 5 min, 10 h, checked at any 32-bit second and the same fractions; 3 names (one of them not UTF-8), any one capability
func VP_A04_issue() {
	svc := service()
	t0 := int64(nd.Uint32("t0") >> 1)
	nd.Assume(t0 > 0)
	nanos := []int64{0, 999999999}
	f0, f1 := nanos[nd.Pick("fraction", 2)], nanos[nd.Pick("later fraction", 2)]
	sec, frac := t0, f0
	life := []time.Duration{0, time.Second, 1500 * time.Millisecond, 5 * time.Minute, 10 * time.Hour}[nd.Pick("lifetime", 5)]
	token.SetLifetime(life)
	if life == 0 {
		life = 5 * time.Minute
	}
	ticks := nd.Bool("ticks")
	clock(func() time.Time {
		t := time.Unix(sec, frac)
		if ticks {
			sec++
		}
		return t
	})
	w := env.NewWorld(env.NewStore())
	srv := rpc2.New(rpc2.Refs{TokenService: svc, Tree: w.Tree}, w.Log)
	id := nd.Choose("id", "a", "\xff", "é")
	e := &pb.Entity{ID: env.S(id), Secret: env.S(w.Cr.Seed("right"))}
	var caps []pb.Capability
	if nd.Bool("capability") {
		caps = []pb.Capability{env.SymCap("cap")}
		e.Meta = &pb.EntityMeta{Capabilities: caps}
	}
	w.KV.PutEntity(e)
	r, err := srv.AuthGetToken(env.Ctx(""), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(id)}, Secret: env.S("right")})
	if err != nil {
		nd.Assert(id == "\xff", "a login with the right secret yields a token")
		return
	}
	ticks = false
	// the time when the token was issued
	end := sec
	later := int64(nd.Uint32("later") >> 1)
	nd.Assume(nd.Or(later > end, nd.And(later == end, f1 >= f0)))
	sec, frac = later, f1
	got, err := svc.Validate(r.GetToken())
	_, err2 := srv.AuthValidateToken(env.Ctx(""), &rpc.AuthRequest{Token: r.Token})
	nd.Assert((err == nil) == (err2 == nil), "the validity check is the token service's")
	if err == nil {
		nd.Reach("valid")
		nd.Assert(got.EntityID == id, "a token names the entity that logged in")
		nd.Assert(sameCaps(got.Capabilities, caps), "a token carries the entity's capabilities")
	}
	// whole seconds and the rest of the lifetime
	ls, ln := int64(life/time.Second), int64(life%time.Second)
	// over(s): s+frac of the check lies at or after the end of a token made at s0
	over := func(s0, slack int64) bool {
		d := later - s0 - ls - slack
		return nd.Or(d > 0, nd.And(d == 0, f1-f0 >= ln))
	}
	if err == nil {
		nd.Assert(!over(end, 1), "a token is refused after its lifetime")
	} else {
		nd.Reach("expired")
		nd.Assert(over(t0, 0), "a token is valid for its lifetime")
	}
}

//gosym:bounds starting the token service twice, with each of the key files present, missing, with wrong permissions, not to be opened or unreadable as a key, or a public key of another kind, with and without key generation, and a failing file change at any point of the first start
func VP_A04_keys() {
	gen := nd.Bool("generate")
	configure(gen)
	clock(func() time.Time { return time.Unix(1700000000, 0) })
	token.SetLifetime(time.Minute)
	k := other()
	pubState := nd.Choose("public", "none", "ok", "mode", "garbage", "ec", "denied")
	privState := nd.Choose("private", "none", "ok", "garbage")
	put := func(path, state, typ string, der []byte, mode uint32) {
		b := pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der})
		if state == "garbage" {
			b = []byte("x")
		}
		if state == "mode" {
			mode = 0666
		}
		if state != "none" {
			zzos.Put(path, b, zzos.FileMode(mode))
		}
	}
	zzos.MkdirAll("/d/keys", 0755)
	pub, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	if pubState == "ec" {
		pub, err = x509.MarshalPKIXPublicKey(&ecKey().PublicKey)
	}
	nd.Assert(err == nil, "keys can be encoded")
	put(pubFile, pubState, "RSA PUBLIC KEY", pub, 0644)
	put(privFile, privState, "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k), 0400)
	if pubState == "denied" {
		zzos.Unreadable = pubFile
	}
	pub0, _ := zzos.Raw(pubFile)
	priv0, _ := zzos.Raw(privFile)
	if nd.Bool("fault") {
		zzos.FailAt(nd.Pick("step", 6), 0)
	}
	s, err := jwt.NewRSA(hclog.NewNullLogger())
	faulty := zzos.Dead() || err != nil
	zzos.Restart()
	if pubState != "none" {
		a, _ := zzos.Raw(pubFile)
		b, _ := zzos.Raw(privFile)
		nd.Assert(string(a) == string(pub0) && string(b) == string(priv0), "existing keys are kept")
	}
	switch pubState {
	case "ok":
	case "none":
		if !gen {
			nd.Assert(err != nil, "keys are not generated unless allowed")
			_, found := zzos.Raw(pubFile)
			nd.Assert(!found, "keys are not generated unless allowed")
			nd.Reach("not generated")
			return
		}
	default:
		nd.Assert(err != nil, "a server with an unusable public key does not start")
		nd.Reach("unusable")
		return
	}
	if faulty {
		nd.Reach("faulty")
		nd.Assert(s == nil, "a failed start yields no service")
		return
	}
	tok, err := s.Generate(claims("a", pb.Capability_LOCK_ENTITY), token.GetConfig())
	if pubState == "ok" && privState != "ok" {
		nd.Reach("cannot sign")
		nd.Assert(err != nil && tok == "", "without a private key no tokens are issued")
		return
	}
	nd.Assert(err == nil, "a server with keys issues tokens")
	got, err := s.Validate(tok)
	nd.Assert(err == nil && got.EntityID == "a" && sameCaps(got.Capabilities, []pb.Capability{pb.Capability_LOCK_ENTITY}), "a server accepts its own tokens")
	nd.Assert(zzos.RawMode(privFile)&0077 == 0, "the private key is readable by its owner only")
	if pubState == "none" {
		nd.Reach("generated")
	} else {
		t := make1(jwtgo.SigningMethodRS512, jwt.RSAToken{Claims: claims("b")}, k)
		_, err = s.Validate(strings.Join(t, "."))
		nd.Assert(err == nil, "the server's key is the one in its files")
	}
	// another start, with key generation or without
	env.SetConf("token.jwt.generate", !gen)
	s, err = jwt.NewRSA(hclog.NewNullLogger())
	nd.Assert(err == nil, "a server starts again")
	got, err = s.Validate(tok)
	nd.Assert(err == nil && got.EntityID == "a", "tokens remain valid over a restart")
	tok, err = s.Generate(claims("a"), token.GetConfig())
	nd.Assert(err == nil && tok != "", "a server issues tokens again")
	foreign := make1(jwtgo.SigningMethodRS512, jwt.RSAToken{Claims: claims("a")}, other())
	_, err = s.Validate(strings.Join(foreign, "."))
	nd.Assert(err != nil, "tokens of others are refused")
	nd.Reach("again")
}

//gosym:bounds two tokens of the server with any 32-bit windows for two entities with one capability each, and one signed with another key; any two of these checked in turn, then the first again, at any three clock readings
func VP_A04_history() {
	svc := service()
	mine := own()
	now := int64(0)
	clock(func() time.Time { return time.Unix(now, 0) })
	type tok struct {
		s        string
		id       string
		cap      pb.Capability
		nbf, exp int64
		mine     bool
	}
	draw := func(l string) tok {
		t := tok{cap: env.SymCap("cap"), nbf: int64(nd.Uint32("nbf")), exp: int64(nd.Uint32("exp")), mine: true}
		nd.Assume(nd.And(t.nbf > 0, t.exp > 0))
		t.id = l
		k := mine
		if nd.Bool("other key") {
			k, t.mine = other(), false
		}
		c := jwt.RSAToken{Claims: claims(t.id, t.cap)}
		c.NotBefore, c.ExpiresAt, c.Id = t.nbf, t.exp, t.id
		t.s = strings.Join(make1(jwtgo.SigningMethodRS512, c, k), ".")
		return t
	}
	a := draw("a")
	b := draw("b")
	check := func(t tok) {
		now = int64(nd.Uint32("now"))
		got, err := svc.Validate(t.s)
		want := nd.And(t.mine, nd.And(now >= t.nbf, now <= t.exp))
		if err != nil {
			nd.Reach("refused")
			nd.Assert(!want, "a token of the server is accepted within its window, whatever was checked before")
			nd.Assert(got.EntityID == "" && len(got.Capabilities) == 0, "a refused token has no claims")
			return
		}
		nd.Reach("accepted")
		nd.Assert(want, "a token is refused outside its window, whatever was checked before")
		nd.Assert(got.EntityID == t.id && sameCaps(got.Capabilities, []pb.Capability{t.cap}), "the claims are the ones that were signed")
	}
	check(a)
	check(b)
	check(a)
}

//gosym:bounds the server's validity check for no token, an empty one, one of 6 strings that are no tokens, and tokens signed with the server's or another key within or outside their window
func VP_A04_check() {
	svc := service()
	mine := own()
	clock(func() time.Time { return time.Unix(5000, 0) })
	w := env.NewWorld(env.NewStore())
	srv := rpc2.New(rpc2.Refs{TokenService: svc, Tree: w.Tree}, w.Log)
	var tok *string
	valid := false
	switch k := nd.Pick("token", 3); k {
	case 1:
		tok = env.S(nd.Choose("text", "", " ", ".", "..", "...", "a.b.c", "null"))
	case 2:
		c := jwt.RSAToken{Claims: claims(nd.Choose("id", "a", ""), env.SymCap("cap"))}
		c.NotBefore, c.ExpiresAt, c.Id = 1000, int64(nd.Uint32("exp")), c.EntityID
		key, good := mine, true
		if nd.Bool("other key") {
			key, good = other(), false
		}
		valid = nd.And(good, nd.Or(c.ExpiresAt == 0, c.ExpiresAt >= 5000))
		tok = env.S(strings.Join(make1(jwtgo.SigningMethodRS512, c, key), "."))
	}
	_, err := srv.AuthValidateToken(env.Ctx(""), &rpc.AuthRequest{Token: tok, Entity: &pb.Entity{ID: env.S("a")}, Secret: env.S("s")})
	if err == nil {
		nd.Reach("valid")
		nd.Assert(valid, "the validity check refuses everything but valid tokens of the server")
		return
	}
	nd.Reach("refused")
	nd.Assert(!valid, "the validity check accepts valid tokens of the server")
}

//gosym:bounds a server with its token service: two tokens with any 32-bit windows, one of the server's and one of it or signed with another key, and three requests in a row, each with either token, a change of an object or a validity check, at any 32-bit clock readings
func VP_A04_requests() {
	svc := service()
	mine := own()
	now := int64(0)
	clock(func() time.Time { return time.Unix(now, 0) })
	kv := env.NewStore()
	w := env.NewWorld(kv)
	srv := rpc2.New(rpc2.Refs{TokenService: svc, Tree: w.Tree}, w.Log)
	kv.PutEntity(&pb.Entity{ID: env.S("b"), Number: env.I(1)})
	w.Load()
	var tok [2]string
	var nbf, exp [2]int64
	var good [2]bool
	for i := range tok {
		c := jwt.RSAToken{Claims: claims([]string{"a", "c"}[i], pb.Capability_LOCK_ENTITY, pb.Capability_UNLOCK_ENTITY)}
		nbf[i], exp[i], good[i] = int64(nd.Uint32("nbf")), int64(nd.Uint32("exp")), true
		nd.Assume(nd.And(nbf[i] > 0, exp[i] > 0))
		c.NotBefore, c.ExpiresAt, c.Id = nbf[i], exp[i], c.EntityID
		key := mine
		if i == 1 && nd.Bool("other key") {
			key, good[i] = other(), false
		}
		tok[i] = strings.Join(make1(jwtgo.SigningMethodRS512, c, key), ".")
	}
	locked := false
	for i := 0; i < 3; i++ {
		t := nd.Pick("token", 2)
		now = int64(nd.Uint32("now"))
		valid := nd.And(good[t], nd.And(nbf[t] <= now, now <= exp[t]))
		var err error
		if i == 1 && nd.Bool("check") {
			_, err = srv.AuthValidateToken(env.Ctx(""), &rpc.AuthRequest{Token: &tok[t], Entity: &pb.Entity{ID: env.S("a")}})
		} else {
			q := &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("b")}}
			if locked {
				_, err = srv.EntityUnlock(env.Ctx(tok[t]), q)
			} else {
				_, err = srv.EntityLock(env.Ctx(tok[t]), q)
			}
			if valid {
				locked = !locked
			}
		}
		if valid {
			nd.Reach("accepted")
			nd.Assert(err == nil, "a valid token is accepted")
		} else {
			nd.Reach("refused")
			nd.Assert(err != nil, "a token is accepted only while it is valid")
		}
		nd.Assert(kv.Entity("b").GetMeta().GetLocked() == locked, "a request is carried out exactly if its token is valid")
	}
}
