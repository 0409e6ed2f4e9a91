package zza

import (
	"context"
	"errors"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/crypto"
	"github.com/netauth/netauth/internal/crypto/bcrypt"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
	prim "golang.org/x/crypto/bcrypt"
)

// The stand-in for the bcrypt primitive: a hash is a handle for the key bcrypt
// derives from the password, which is the password with a NUL byte, repeated
// and cut off at 72 bytes.
var (
	bcKeys  []string
	bcCosts []int
)

var bcNames = []string{"$2a$h0", "$2a$h1", "$2a$h2", "$2a$h3", "$2a$h4", "$2a$h5"}

func bcKey(p []byte) string {
	k := string(p) + "\x00"
	out := ""
	for len(out) < 72 {
		out += k
	}
	return out[:72]
}

//gosym:replace golang.org/x/crypto/bcrypt.GenerateFromPassword
func bcGenerate(p []byte, cost int) ([]byte, error) {
	if cost < 4 {
		cost = 10
	}
	if cost > 31 {
		return nil, errors.New("bad cost")
	}
	h := bcNames[len(bcKeys)]
	bcKeys = append(bcKeys, bcKey(p))
	bcCosts = append(bcCosts, cost)
	return []byte(h), nil
}

//gosym:replace golang.org/x/crypto/bcrypt.CompareHashAndPassword
func bcCompare(h, p []byte) error {
	for i := range bcKeys {
		if string(h) == bcNames[i] {
			if bcKeys[i] == bcKey(p) {
				return nil
			}
			return errors.New("mismatch")
		}
	}
	return errors.New("too short")
}

//gosym:replace golang.org/x/crypto/bcrypt.Cost
func bcCost(h []byte) (int, error) {
	for i := range bcKeys {
		if string(h) == bcNames[i] {
			return bcCosts[i], nil
		}
	}
	return 0, errors.New("too short")
}

// long is a prefix that fills what the primitive looks at almost entirely.
const long = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"

func engine() crypto.EMCrypto {
	env.SetConf("crypto.bcrypt.cost", 4)
	c, err := bcrypt.New(hclog.NewNullLogger())
	nd.Assert(err == nil && c != nil, "the crypto engine starts")
	return c
}

func secret(l string) string {
	s := nd.Str(l, 0, 2, "")
	if nd.Bool(l + " is long") {
		s = long + s
	}
	return s
}

//gosym:bounds the bcrypt engine on top of the primitive (cost 4): a first secret of 0..2 arbitrary bytes, alone or behind 71 fixed bytes, and a second one drawn the same way; verification of either against both results, the empty record and a record that is no hash
func VP_A01_engine() {
	c := engine()
	s := secret("s")
	h, err := c.SecureSecret(s)
	if err != nil {
		nd.Reach("refused")
		nd.Assert(h == "", "a refused secret yields no record")
		nd.Assert(err == crypto.ErrInternalError, "engine faults are reported as such")
		return
	}
	p := secret("p")
	verr := c.VerifySecret(p, h)
	nd.Assert((verr == nil) == (s == p), "a record verifies exactly the secret it was made for")
	if verr == nil {
		nd.Reach("verified")
	} else {
		nd.Reach("mismatch")
		nd.Assert(verr == crypto.ErrAuthorizationFailure, "a mismatch is reported as such")
	}
	nd.Assert(c.VerifySecret(p, "") != nil, "an empty record verifies nothing")
	nd.Assert(c.VerifySecret(p, p) != nil, "a record that is no hash verifies nothing")
}

//gosym:bounds the bcrypt engine with an ordinary secret of 0..2 bytes, or one the primitive distinguishes up to its length limit
func VP_A06_engine() {
	c := engine()
	s := nd.Str("s", 0, 2, "a-z")
	h, err := c.SecureSecret(s)
	nd.Assert(err == nil, "ordinary secrets can be secured")
	nd.Assert(h != s && c.VerifySecret(s, h) == nil, "the result is made for the presented secret")
	h2, err := c.SecureSecret(s)
	nd.Assert(err == nil && h2 != h && c.VerifySecret(s, h2) == nil, "equal secrets get records of their own")
	env.SetConf("crypto.bcrypt.cost", 250)
	c, err = bcrypt.New(hclog.NewNullLogger())
	if err != nil {
		return
	}
	h, err = c.SecureSecret(s)
	nd.Reach("faulty")
	nd.Assert(err != nil && h == "", "an engine that fails yields no record")
}

//gosym:bounds a server with the bcrypt engine: an entity created with a secret of 0..2 arbitrary bytes alone or behind 71 fixed bytes, then authentication with another drawn the same way, with or without a change of secret to a third one first
func VP_A01_bcrypt() {
	w := env.NewWorld(env.NewStore())
	w.Engine = engine()
	w.Boot()
	ctx := w.CtxWith("z", pb.Capability_GLOBAL_ROOT)
	s := secret("s")
	if _, err := w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: &s}}); err != nil {
		nd.Reach("not created")
		nd.Assert(w.KV.Entity("e") == nil, "a refused creation stores nothing")
		return
	}
	p := secret("p")
	_, err := w.Srv.AuthEntity(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: &p})
	if err == nil {
		nd.Reach("accepted")
	} else {
		nd.Reach("refused")
	}
	nd.Assert((err == nil) == (s == p), "authentication succeeds exactly with the secret of the entity")
}

//gosym:bounds the bcrypt engine with every cost from 4 to 11 (thorough 13), and one or two engines started one after the other with costs of their own
func VP_F13_cost() {
	n := 1 + nd.Pick("engines", 2)
	var cs []crypto.EMCrypto
	var costs []int
	for i := 0; i < n; i++ {
		most := 8
		if nd.Thorough() {
			most = 10
		}
		cost := 4 + nd.Pick("cost", most)
		env.SetConf("crypto.bcrypt.cost", cost)
		c, err := bcrypt.New(hclog.NewNullLogger())
		nd.Assert(err == nil && c != nil, "the crypto engine starts")
		cs, costs = append(cs, c), append(costs, cost)
	}
	for i, c := range cs {
		h, err := c.SecureSecret("s")
		nd.Assert(err == nil && c.VerifySecret("s", h) == nil, "secrets can be secured")
		nd.Reach("secured")
		k, err := prim.Cost([]byte(h))
		nd.Assert(err == nil && k == costs[i], "secrets are secured at the configured cost")
	}
}
