import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HEAD='''package oidfed

import (
	"encoding/json"
	"testing"

	"github.com/google/go-querystring/query"

	"github.com/go-oidfed/lib/apimodel"
)

var _ = query.Values
var _ = json.Marshal
var _ = apimodel.ResolveRequest{}

func TestSeedDemo(t *testing.T) {
'''
def T(b): return HEAD+b+"\n}\n"
SEEDS=[
dict(id="c40-entity-types-plural", prop="C40", edits=[("apimodel/collection.go",'query:"entity_type" url:"entity_type"`','query:"entity_type" url:"entity_types"`')],
 demo=T('''	v, err := query.Values(apimodel.EntityCollectionRequest{EntityTypes: []string{"openid_provider"}})
	if err != nil || v.Get("entity_type") != "openid_provider" {
		t.Fatal(v, err)
	}'''), needs="a remote entity collection with an entity type filter", breaks="the filter is sent under a name that endpoints do not know, so entities of all types are returned"),
dict(id="c40-duplicate-name", prop="C40", edits=[("entitystatement.go",'`json:"trust_mark_owners,omitempty"`','`json:"trust_mark_issuers,omitempty"`')],
 demo=T('''	b, err := json.Marshal(EntityStatementPayload{TrustMarkOwners: TrustMarkOwners{"https://mark.example": {ID: "https://owner.example"}}})
	if err != nil {
		t.Fatal(err)
	}
	var m map[string]any
	if err = json.Unmarshal(b, &m); err != nil || m["trust_mark_owners"] == nil {
		t.Fatal(string(b), err)
	}'''), needs="a trust anchor with trust mark owners", breaks="owners and issuers of trust marks disappear from the statement"),
dict(id="c40-twin-name", prop="C40", edits=[("metadata_generated.go",'''	TLSClientAuthSANIP                    *string        `json:"tls_client_auth_san_ip,omitempty"`''','''	TLSClientAuthSANIP                    *string        `json:"tls_client_auth_sanip,omitempty"`''')],
 demo=T('''	var m OpenIDRelyingPartyMetadata
	if err := json.Unmarshal([]byte(`{"tls_client_auth_san_ip":"192.0.2.1"}`), &m); err != nil || m.TLSClientAuthSANIP != "192.0.2.1" || m.Extra != nil {
		t.Fatal(m.TLSClientAuthSANIP, m.Extra, err)
	}'''), needs="relying party metadata with tls_client_auth_san_ip", breaks="the claim is not decoded into its field"),
]
