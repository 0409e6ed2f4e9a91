// Package zzj checks properties about tokens.
package zzj

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"errors"
	"io"

	jwtgo "github.com/dgrijalva/jwt-go"

	"github.com/netauth/netauth/internal/token/jwt"
	nd "github.com/netauth/netauth/internal/zznd"
)

// The symbolic execution abstracts the signature primitives and the JSON
// encoding: keys are numbered, a segment of a token refers to what it encodes,
// and a signature fits exactly the algorithm, key and text it was made for.
// Native replay uses the real ones.

type sig struct {
	alg  string // algorithm and hash
	text string
	key  int    // of an RSA key
	mac  string // of an HMAC
}

var (
	headers []string // alg of each header segment
	bodies  []jwt.RSAToken
	sigs    []sig
	keys    int
)

const digits = "0123456789"

func seg(kind string, n int) string { return kind + digits[n/10:n/10+1] + digits[n%10:n%10+1] }

// unseg returns the number a segment refers to, -1 when it is garbage.
func unseg(kind, s string, n int) int {
	for i := 0; i < n; i++ {
		if s == seg(kind, i) {
			return i
		}
	}
	return -1
}

// utf is what the JSON encoding makes of a string.
func utf(s string) string { return string([]rune(s)) }

func plain(c jwtgo.Claims) (jwt.RSAToken, bool) {
	switch c := c.(type) {
	case jwt.RSAToken:
		return c, true
	case *jwt.RSAToken:
		return *c, true
	}
	return jwt.RSAToken{}, false
}

//gosym:replace (*github.com/dgrijalva/jwt-go.Token).SigningString
func signingString(t *jwtgo.Token) (string, error) {
	alg, _ := t.Header["alg"].(string)
	c, ok := plain(t.Claims)
	if !ok {
		panic("unknown claims")
	}
	c.EntityID, c.Id, c.Subject, c.Audience, c.Issuer = utf(c.EntityID), utf(c.Id), utf(c.Subject), utf(c.Audience), utf(c.Issuer)
	c.Capabilities = append(c.Capabilities[:0:0], c.Capabilities...)
	headers = append(headers, alg)
	bodies = append(bodies, c)
	return seg("h", len(headers)-1) + "." + seg("c", len(bodies)-1), nil
}

func malformed(s string) error { return jwtgo.NewValidationError(s, jwtgo.ValidationErrorMalformed) }

//gosym:replace (*github.com/dgrijalva/jwt-go.Parser).ParseUnverified
func parseUnverified(p *jwtgo.Parser, s string, claims jwtgo.Claims) (*jwtgo.Token, []string, error) {
	var parts []string
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			parts = append(parts, s[from:i])
			from = i + 1
		}
	}
	parts = append(parts, s[from:])
	if len(parts) != 3 {
		return nil, parts, malformed("token contains an invalid number of segments")
	}
	t := &jwtgo.Token{Raw: s}
	h := unseg("h", parts[0], len(headers))
	if h < 0 {
		return t, parts, malformed("header")
	}
	t.Header = map[string]interface{}{"typ": "JWT", "alg": headers[h]}
	t.Claims = claims
	b := unseg("c", parts[1], len(bodies))
	if b < 0 {
		return t, parts, malformed("claims")
	}
	c, ok := claims.(*jwt.RSAToken)
	if !ok {
		panic("unknown claims")
	}
	*c = bodies[b]
	c.Capabilities = append(c.Capabilities[:0:0], bodies[b].Capabilities...)
	if t.Method = jwtgo.GetSigningMethod(headers[h]); t.Method == nil {
		return t, parts, jwtgo.NewValidationError("signing method (alg) is unavailable.", jwtgo.ValidationErrorUnverifiable)
	}
	return t, parts, nil
}

func sign(s sig) (string, error) {
	sigs = append(sigs, s)
	return seg("s", len(sigs)-1), nil
}

var errBad = errors.New("verification error")

func verify(signature string, want sig) error {
	if i := unseg("s", signature, len(sigs)); i >= 0 && sigs[i] == want {
		return nil
	}
	return errBad
}

//gosym:replace (*github.com/dgrijalva/jwt-go.SigningMethodRSA).Sign
func rsaSign(m *jwtgo.SigningMethodRSA, text string, key interface{}) (string, error) {
	k, ok := key.(*rsa.PrivateKey)
	if !ok {
		return "", jwtgo.ErrInvalidKey
	}
	return sign(sig{alg: m.Name, text: text, key: k.E})
}

//gosym:replace (*github.com/dgrijalva/jwt-go.SigningMethodRSA).Verify
func rsaVerify(m *jwtgo.SigningMethodRSA, text, signature string, key interface{}) error {
	k, ok := key.(*rsa.PublicKey)
	if !ok {
		return jwtgo.ErrInvalidKeyType
	}
	return verify(signature, sig{alg: m.Name, text: text, key: k.E})
}

//gosym:replace (*github.com/dgrijalva/jwt-go.SigningMethodRSAPSS).Sign
func pssSign(m *jwtgo.SigningMethodRSAPSS, text string, key interface{}) (string, error) {
	k, ok := key.(*rsa.PrivateKey)
	if !ok {
		return "", jwtgo.ErrInvalidKeyType
	}
	return sign(sig{alg: m.Name, text: text, key: k.E})
}

//gosym:replace (*github.com/dgrijalva/jwt-go.SigningMethodRSAPSS).Verify
func pssVerify(m *jwtgo.SigningMethodRSAPSS, text, signature string, key interface{}) error {
	k, ok := key.(*rsa.PublicKey)
	if !ok {
		return jwtgo.ErrInvalidKey
	}
	return verify(signature, sig{alg: m.Name, text: text, key: k.E})
}

//gosym:replace (*github.com/dgrijalva/jwt-go.SigningMethodHMAC).Sign
func macSign(m *jwtgo.SigningMethodHMAC, text string, key interface{}) (string, error) {
	k, ok := key.([]byte)
	if !ok {
		return "", jwtgo.ErrInvalidKeyType
	}
	return sign(sig{alg: m.Name, text: text, mac: string(k)})
}

//gosym:replace (*github.com/dgrijalva/jwt-go.SigningMethodHMAC).Verify
func macVerify(m *jwtgo.SigningMethodHMAC, text, signature string, key interface{}) error {
	k, ok := key.([]byte)
	if !ok {
		return jwtgo.ErrInvalidKeyType
	}
	return verify(signature, sig{alg: m.Name, text: text, mac: string(k)})
}

//gosym:replace (*github.com/dgrijalva/jwt-go.SigningMethodECDSA).Sign
func ecSign(m *jwtgo.SigningMethodECDSA, text string, key interface{}) (string, error) {
	if _, ok := key.(*ecdsa.PrivateKey); !ok {
		return "", jwtgo.ErrInvalidKeyType
	}
	return sign(sig{alg: m.Name, text: text})
}

//gosym:replace (*github.com/dgrijalva/jwt-go.SigningMethodECDSA).Verify
func ecVerify(m *jwtgo.SigningMethodECDSA, text, signature string, key interface{}) error {
	if _, ok := key.(*ecdsa.PublicKey); !ok {
		return jwtgo.ErrInvalidKeyType
	}
	return verify(signature, sig{alg: m.Name, text: text})
}

// ---- keys ----

// lastBits is the size of the last key generated.
var lastBits int

//gosym:replace crypto/rsa.GenerateKey
func rsaGenerate(r io.Reader, bits int) (*rsa.PrivateKey, error) {
	if bits < 1024 {
		return nil, errors.New("crypto/rsa: key too small")
	}
	keys++
	lastBits = bits
	return &rsa.PrivateKey{PublicKey: rsa.PublicKey{E: keys}}, nil
}

func der(kind string, n int) []byte { return []byte(kind + digits[n/10:n/10+1] + digits[n%10:n%10+1]) }

func under(kind string, b []byte) int {
	s := string(b)
	for i := 1; i <= keys; i++ {
		if s == string(der(kind, i)) {
			return i
		}
	}
	return -1
}

//gosym:replace crypto/x509.MarshalPKCS1PrivateKey
func marshalPKCS1(k *rsa.PrivateKey) []byte { return der("private", k.E) }

//gosym:replace crypto/x509.MarshalPKIXPublicKey
func marshalPKIX(k interface{}) ([]byte, error) {
	switch k := k.(type) {
	case *rsa.PublicKey:
		return der("public", k.E), nil
	case *ecdsa.PublicKey:
		return []byte("ec"), nil
	}
	return nil, errors.New("unsupported key")
}

//gosym:replace crypto/x509.ParsePKCS1PrivateKey
func parsePKCS1(b []byte) (*rsa.PrivateKey, error) {
	if n := under("private", b); n >= 0 {
		return &rsa.PrivateKey{PublicKey: rsa.PublicKey{E: n}}, nil
	}
	return nil, errors.New("x509: not a key")
}

//gosym:replace crypto/x509.ParsePKIXPublicKey
func parsePKIX(b []byte) (interface{}, error) {
	if n := under("public", b); n >= 0 {
		return &rsa.PublicKey{E: n}, nil
	}
	if string(b) == "ec" {
		return &ecdsa.PublicKey{}, nil
	}
	return nil, errors.New("x509: not a key")
}

func ecKey() *ecdsa.PrivateKey {
	if nd.Symbolic() {
		return &ecdsa.PrivateKey{}
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}
