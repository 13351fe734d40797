import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
PRE = '''	httpmock.Activate()
	defer httpmock.DeactivateAndReset()
	httpmock.ActivateNonDefault(ihttp.Do().GetClient())
	reply := func(url string, status int, body string) {
		httpmock.RegisterResponder("GET", url, func(*http.Request) (*http.Response, error) {
			r := httpmock.NewStringResponse(status, body)
			r.Header.Set("Content-Type", "application/json")
			return r, nil
		})
	}
	req := apimodel.ResolveRequest{Subject: "https://sub.example", TrustAnchor: []string{"https://ta1.example", "https://ta2.example"}}
	endpoint := func(d *demoEntity) string {
		d.config.Metadata.FederationEntity.FederationResolveEndpoint = d.id + "/resolve"
		return d.id + "/resolve"
	}
	_, _, _ = reply, req, endpoint
'''
def T(body):
    h = HELP.replace('	"github.com/go-oidfed/lib/jwks"\n', '	"github.com/go-oidfed/lib/apimodel"\n	ihttp "github.com/go-oidfed/lib/internal/http"\n	"github.com/go-oidfed/lib/jwks"\n')
    return h + "\nfunc TestSeedDemo(t *testing.T) {\n" + PRE + body + "\n}\n"
S = "metadata_resolver.go"
SEEDS = [
 dict(id="c33-unknown-error-status", prop="C33", pkg=".",
  edits=[(S, '''		default:
			resolveStatus = resolveStatusUnknown
		}
''', '''		default:
			resolveStatus = resolveStatusUnknown
			if errRes.Status < 400 {
				resolveStatus = resolveStatusValid
			}
		}
''')],
  demo=T('''	reply("https://ta.example/resolve", 304, ``)
	r := SimpleRemoteMetadataResolver{ResolveEndpoint: "https://ta.example/resolve"}
	if valid, _ := r.ResolvePossible(req); valid {
		t.Fatal("confirmed valid")
	}'''),
  needs="a resolve endpoint that answers with a status between 300 and 399", breaks="such a response confirms that the subject is valid"),
 dict(id="c33-anchor-unknown", prop="C33", pkg=".",
  edits=[(S, "		case InvalidTrustChain:\n			resolveStatus = resolveStatusInvalid\n", "		case InvalidTrustChain, NotFound:\n			resolveStatus = resolveStatusInvalid\n")],
  demo=T('''	reply("https://ta.example/resolve", 404, `{"error":"not_found"}`)
	r := SimpleRemoteMetadataResolver{ResolveEndpoint: "https://ta.example/resolve"}
	if _, invalid := r.ResolvePossible(req); invalid {
		t.Fatal("confirmed invalid")
	}'''),
  needs="a resolve endpoint that answers not_found", breaks="an entity the resolver does not know counts as confirmed invalid"),
 dict(id="c33-first-anchor-only", prop="C33", pkg=".",
  edits=[(S, '''		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)
		if validConfirmed {
			return true, false
		}
		if invalidConfirmed {
			return false, true
		}
''', '''		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)
		if validConfirmed {
			return true, false
		}
		if invalidConfirmed {
			return false, true
		}
		break
''')],
  demo=T('''	ta1, ta2 := newDemo("https://ta1.example"), newDemo("https://ta2.example")
	reply(endpoint(ta1), 503, `{"error":"temporarily_unavailable"}`)
	reply(endpoint(ta2), 400, `{"error":"invalid_metadata"}`)
	if valid, invalid := (SmartRemoteMetadataResolver{}).ResolvePossible(req); !valid || invalid {
		t.Fatal("the second anchor was not asked")
	}'''),
  needs="two trust anchors, the first of which cannot answer", breaks="only the first trust anchor with a resolve endpoint is asked"),
 dict(id="c33-other-anchor-config", prop="C33", pkg=".",
  edits=[(S, '''		res, err := remoteResolver.ResolveResponsePayload(req)
''', '''		single := req
		single.TrustAnchor = []string{tr}
		res, err := remoteResolver.ResolveResponsePayload(single)
''')],
  demo=T('''	ta1 := newDemo("https://ta1.example")
	httpmock.RegisterResponder("GET", endpoint(ta1), func(r *http.Request) (*http.Response, error) {
		if got := r.URL.Query()["trust_anchor"]; len(got) != 2 {
			t.Errorf("resolver is asked for %v", got)
		}
		return httpmock.NewStringResponse(500, ""), nil
	})
	SmartRemoteMetadataResolver{}.ResolveResponsePayload(req)'''),
  needs="a request with more than one trust anchor", breaks="the resolve endpoint is asked for other trust anchors than the request has"),
 dict(id="c25-valid-without-metadata", prop="C25", pkg=".",
  edits=[(S, '''	chains := tr.ResolveToValidChains()
	valid''', '''	chains := tr.ResolveToValidChainsWithoutVerifyingMetadata()
	valid''')],
  demo=T('''	ta := newDemo("https://ta1.example")
	newDemo("https://sub.example", ta)
	ta.modSub = func(p *EntityStatementPayload) {
		p.MetadataPolicy = &MetadataPolicies{FederationEntity: MetadataPolicy{"contacts": MetadataPolicyEntry{PolicyOperatorEssential: true}}}
	}
	if valid, invalid := (LocalMetadataResolver{}).ResolvePossible(req); valid || !invalid {
		t.Fatal("confirmed valid without valid metadata")
	}'''),
  needs="a subject whose metadata violates a policy", breaks="an entity without valid metadata is confirmed valid"),
 dict(id="c25-two-chains", prop="C25", pkg=".",
  edits=[(S, "	chains = chains.SortAsc(TrustChainScoringPathLen)\n", "	if len(chains) > 2 {\n		chains = chains.SortAsc(TrustChainScoringPathLen)\n	}\n")],
  demo=T('''	ta := newDemo("https://ta1.example")
	i1 := newDemo("https://i1.example", ta)
	newDemo("https://sub.example", i1, ta)
	req.TrustAnchor = req.TrustAnchor[:1]
	res, err := LocalMetadataResolver{}.ResolveResponsePayload(req)
	if err != nil {
		t.Fatal(err)
	}
	if len(res.TrustChain) != 3 {
		t.Fatalf("a chain of %d statements is used", len(res.TrustChain))
	}'''),
  needs="exactly two chains, of which the longer one is found first", breaks="a longer chain is used although there is a shorter one"),
 dict(id="c25-types", prop="C25", pkg=".",
  edits=[(S, '''		Types:          req.EntityTypes,
	}
	chains := tr.ResolveToValidChains()
	if''', '''	}
	if len(req.EntityTypes) == 1 {
		tr.Types = req.EntityTypes
	}
	chains := tr.ResolveToValidChains()
	if''')],
  demo=T('''	ta := newDemo("https://ta1.example")
	newDemo("https://sub.example", ta)
	req.EntityTypes = []string{"openid_provider", "openid_relying_party"}
	if m, err := (LocalMetadataResolver{}).Resolve(req); err == nil && m.FederationEntity != nil {
		t.Fatalf("resolved to %v", m)
	}'''),
  needs="a request with two entity types none of which the subject has", breaks="requested entity types are ignored"),
 dict(id="c25-expiry", prop="C25", pkg=".",
  edits=[("trustchain.go", "	for i := 1; i < len(c); i++ {\n		if e", "	for i := 1; i < min(len(c), 4); i++ {\n		if e")],
  demo=T('''	now := time.Now()
	st := func(d time.Duration) *EntityStatement {
		return &EntityStatement{EntityStatementPayload: EntityStatementPayload{ExpiresAt: unixtime.Unixtime{Time: now.Add(d)}}}
	}
	if e := (TrustChain{st(3), st(4), st(3), st(2), st(1)}).ExpiresAt(); !e.Equal(now.Add(1)) {
		t.Fatalf("expires %v", e)
	}'''),
  needs="a chain with two intermediates whose last statement expires first", breaks="later statements are not considered"),
]
