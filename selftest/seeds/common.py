HELP = '''package oidfed

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"net/http"
	"testing"
	"time"

	"github.com/jarcoal/httpmock"
	"github.com/lestrrat-go/jwx/v3/jwa"

	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/oidfedconst"
	"github.com/go-oidfed/lib/unixtime"
)

type demoEntity struct {
	id      string
	sk      *ecdsa.PrivateKey
	signer  *EntityStatementSigner
	keys    jwks.JWKS
	config  EntityStatementPayload
	modConf func(*EntityStatementPayload)
	modSub  func(*EntityStatementPayload)
	subKeys map[string]jwks.JWKS
}

func demoKey() (*ecdsa.PrivateKey, jwks.JWKS) {
	sk, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	return sk, jwks.KeyToJWKS(sk.Public(), jwa.ES256())
}

// newDemo publishes an entity: its configuration and a fetch endpoint for its subordinates.
func newDemo(id string, superiors ...*demoEntity) *demoEntity {
	d := &demoEntity{id: id, subKeys: map[string]jwks.JWKS{}}
	d.sk, d.keys = demoKey()
	d.signer = NewEntityStatementSigner(d.sk, jwa.ES256())
	now := time.Now()
	d.config = EntityStatementPayload{
		Issuer: id, Subject: id, JWKS: d.keys,
		IssuedAt:  unixtime.Unixtime{Time: now.Add(-time.Minute)},
		ExpiresAt: unixtime.Unixtime{Time: now.Add(time.Hour)},
		Metadata: &Metadata{FederationEntity: &FederationEntityMetadata{FederationFetchEndpoint: id + "/fetch"}},
	}
	for _, s := range superiors {
		d.config.AuthorityHints = append(d.config.AuthorityHints, s.id)
		s.subKeys[id] = d.keys
	}
	httpmock.RegisterResponder("GET", id+oidfedconst.FederationSuffix, func(*http.Request) (*http.Response, error) {
		p := d.config
		if d.modConf != nil {
			d.modConf(&p)
		}
		b, err := d.signer.JWT(&p)
		if err != nil {
			return nil, err
		}
		return httpmock.NewBytesResponse(200, b), nil
	})
	httpmock.RegisterResponder("GET", id+"/fetch", func(r *http.Request) (*http.Response, error) {
		sub := r.URL.Query().Get("sub")
		p := EntityStatementPayload{
			Issuer: id, Subject: sub, JWKS: d.subKeys[sub],
			IssuedAt:  unixtime.Unixtime{Time: time.Now().Add(-time.Minute)},
			ExpiresAt: unixtime.Unixtime{Time: time.Now().Add(time.Hour)},
		}
		if d.modSub != nil {
			d.modSub(&p)
		}
		b, err := d.signer.JWT(&p)
		if err != nil {
			return nil, err
		}
		return httpmock.NewBytesResponse(200, b), nil
	})
	return d
}

func demoChains(leaf *demoEntity, tas ...*demoEntity) TrustChains {
	var as TrustAnchors
	for _, ta := range tas {
		as = append(as, TrustAnchor{EntityID: ta.id, JWKS: ta.keys})
	}
	r := TrustResolver{TrustAnchors: as, StartingEntity: leaf.id}
	return r.ResolveToValidChainsWithoutVerifyingMetadata()
}
'''
def T(body): return HELP + "\nfunc TestSeedDemo(t *testing.T) {\n" + body + "\n}\n"
R = "trustresolver.go"
