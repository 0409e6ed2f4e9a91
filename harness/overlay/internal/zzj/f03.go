package zzj

import (
	"crypto/x509"
	"encoding/pem"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/token/jwt"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zzos"
)

//gosym:net

//gosym:bounds the token service started with keys it generated, keys it found, or only a public key; later each of the key files as it was, with any of six other permissions, or gone; one or two status requests, with the permissions repaired in between or not
func VP_F03_keys() {
	gen := nd.Bool("generate")
	configure(gen)
	signs := true
	if !gen {
		k := other()
		zzos.MkdirAll("/d/keys", 0755)
		pub, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
		nd.Assert(err == nil, "keys can be encoded")
		zzos.Put(pubFile, pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: pub}), 0644)
		if signs = nd.Bool("private"); signs {
			zzos.Put(privFile, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}), 0400)
		}
	}
	_, err := jwt.NewRSA(hclog.NewNullLogger())
	nd.Assert(err == nil, "the token service starts")
	pub, priv := true, signs
	later := func(f string, ok *bool, good, a, b, c zzos.FileMode) {
		if _, found := zzos.Raw(f); !found {
			return
		}
		switch nd.Pick("later", 5) {
		case 1:
			zzos.Chmod(f, a)
			*ok = false
		case 2:
			zzos.Chmod(f, b)
			*ok = false
		case 3:
			zzos.Chmod(f, c)
			*ok = false
		case 4:
			zzos.Remove(f)
			*ok = false
		}
	}
	later(pubFile, &pub, 0644, 0666, 0664, 0600)
	later(privFile, &priv, 0400, 0440, 0404, 0600)
	s := health.Check()
	nd.Assert(s.OK == (pub && priv), "the server is reported as ready exactly if its keys are loaded and kept as they must be")
	nd.Assert(s.OK == (s.FirstFailure.Status == ""), "the failure is named")
	if s.OK {
		nd.Reach("ready")
	} else {
		nd.Reach("not ready")
	}
	if nd.Bool("repair") {
		zzos.Chmod(pubFile, 0644)
		zzos.Chmod(privFile, 0400)
		_, a := zzos.Raw(pubFile)
		_, b := zzos.Raw(privFile)
		nd.Assert(health.Check().OK == (a && b && signs), "a repaired server is reported as ready again")
		nd.Reach("repaired")
	}
}
