import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HEAD='''package oidfed

import (
	"encoding/json"
	"testing"

	"github.com/vmihailenco/msgpack/v5"
	"gopkg.in/yaml.v3"
)

var _ = json.Marshal
var _ = msgpack.Marshal
var _ = yaml.Marshal

func TestSeedDemo(t *testing.T) {
'''
def T(b): return HEAD+b+"\n}\n"
SEEDS=[
dict(id="c29-null-extra", prop="C29", edits=[("entitystatement.go",'''	for k, v := range extra {
		e, err := json.Marshal(v)''','''	for k, v := range extra {
		if v == nil {
			continue
		}
		e, err := json.Marshal(v)''')],
 demo=T('''	b, err := json.Marshal(UIInfo{Extra: map[string]any{"x-none": nil}})
	if err != nil {
		t.Fatal(err)
	}
	var m map[string]any
	if err = json.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	if _, ok := m["x-none"]; !ok {
		t.Fatal(string(b))
	}'''), needs="a further member whose value is null", breaks="the member disappears when the message is encoded again"),
dict(id="c29-reset-extra", prop="C29", edits=[("trustmark.go",'''	mm := Alias(*tms)

	extra, err := yamlUnmarshalWithExtra(data, &mm)
	if err != nil {
		return errors.WithStack(err)
	}
	mm.Extra = extra
''','''	mm := Alias(*tms)

	extra, err := yamlUnmarshalWithExtra(data, &mm)
	if err != nil {
		return errors.WithStack(err)
	}
	if mm.IncludeExtraClaimsInInfo {
		mm.Extra = extra
	}
''')],
 demo=T('''	var s TrustMarkSpec
	if err := yaml.Unmarshal([]byte("trust_mark_type: https://mark.example\\nx-level: 3\\n"), &s); err != nil || s.Extra["x-level"] == nil {
		t.Fatal(s.Extra, err)
	}'''), needs="a YAML trust mark configuration with further claims that are not to be shown in the info", breaks="the further claims are not issued with the trust mark"),
dict(id="c29-token-not-cached", prop="C29", edits=[("entitystatement.go",'''	if e.jwtMsg != nil {
		ee.JWTMsg = *e.jwtMsg
	}''','''	if e.jwtMsg != nil && len(e.Extra) == 0 {
		ee.JWTMsg = *e.jwtMsg
	}''')],
 demo='''package oidfed

import (
	"testing"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
	"github.com/vmihailenco/msgpack/v5"

	"github.com/go-oidfed/lib/unixtime"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"

	"github.com/go-oidfed/lib/jwks"
)

func TestSeedDemo(t *testing.T) {
	sk, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	now := time.Now()
	b, err := NewEntityStatementSigner(sk, jwa.ES256()).JWT(&EntityStatementPayload{
		Extra: map[string]any{"x-one": 1}, Issuer: "https://e.example", Subject: "https://e.example", JWKS: jwks.KeyToJWKS(sk.Public(), jwa.ES256()),
		IssuedAt: unixtime.Unixtime{Time: now.Add(-time.Minute)}, ExpiresAt: unixtime.Unixtime{Time: now.Add(time.Hour)},
	})
	if err != nil {
		t.Fatal(err)
	}
	s, err := ParseEntityStatement(b)
	if err != nil {
		t.Fatal(err)
	}
	d, err := msgpack.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	var r EntityStatement
	if err = msgpack.Unmarshal(d, &r); err != nil || !r.Verify(r.JWKS) {
		t.Fatal("restored configuration does not verify", err)
	}
}
''', needs="a statement with further claims that is read back from the cache", breaks="its signature can no longer be verified"),
dict(id="c29-fieldnames-zero", prop="C29", edits=[("internal/utils/utils.go",'''		if i := strings.IndexRune(t, ','); i > 0 {
			t = t[:i]
		}''','''		if i := strings.IndexRune(t, ','); i > 0 && !f.IsZero() {
			t = t[:i]
		}''')],
 demo=T('''	var p EntityStatementPayload
	if err := json.Unmarshal([]byte(`{"iss":"https://e.example","aud":"","x-one":1}`), &p); err != nil || len(p.Extra) != 1 {
		t.Fatal(p.Extra, err)
	}'''), needs="an optional claim that is present with its zero value", breaks="the claim is kept a second time among the further members"),
dict(id="c29-slice-reset", prop="C29", edits=[("sliceorsinglevalue.go",'''	if len(v) == 1 {
		return v[0], nil
	}
	return []T(v), nil''','''	if len(v) <= 1 {
		var t T
		for _, t = range v {
		}
		return t, nil
	}
	return []T(v), nil''')],
 demo=T('''	d, err := yaml.Marshal(SliceOrSingleValue[string]{})
	if err != nil {
		t.Fatal(err)
	}
	var r SliceOrSingleValue[string]
	if err = yaml.Unmarshal(d, &r); err != nil || len(r) != 0 {
		t.Fatal(string(d), r, err)
	}'''), needs="an empty list written to YAML and read again", breaks="it becomes a list with one empty value"),
]
