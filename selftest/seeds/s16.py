import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
PRE = '''	httpmock.Activate()
	httpmock.ActivateNonDefault(ihttp.Do().GetClient())
	lists := map[*demoEntity]*[]string{}
	publish := func(superior *demoEntity, id string) *demoEntity {
		d := newDemo(id, superior)
		if lists[superior] == nil {
			l := []string{}
			lists[superior] = &l
			superior.config.Metadata.FederationEntity.FederationListEndpoint = superior.id + "/list"
			httpmock.RegisterResponder("GET", superior.id+"/list", func(*http.Request) (*http.Response, error) {
				return httpmock.NewJsonResponse(200, l)
			})
		}
		*lists[superior] = append(*lists[superior], id)
		return d
	}
	ta := newDemo("https://ta1.example")
	req := apimodel.EntityCollectionRequest{TrustAnchor: "https://ta1.example"}
	collect := func() map[string]*CollectedEntity {
		out := map[string]*CollectedEntity{}
		for _, e := range (&SimpleEntityCollector{}).CollectEntities(req) {
			out[e.EntityID] = e
		}
		return out
	}
	_, _, _ = publish, collect, ta
'''
def T(body, imports=""):
    h = HELP.replace('	"github.com/go-oidfed/lib/jwks"\n', '	"github.com/go-oidfed/lib/apimodel"\n	ihttp "github.com/go-oidfed/lib/internal/http"\n	"github.com/go-oidfed/lib/jwks"\n').replace('	"testing"\n', '	"testing"\n' + imports)
    h = h.replace("return httpmock.NewJsonResponse(200, l)", "return httpmock.NewJsonResponse(200, l)")
    return h + "\nfunc TestSeedDemo(t *testing.T) {\n" + PRE + body + "\n}\n"
SEEDS = [
dict(id="c32-marks-when-filtered", prop="C32", edits=[("discovery.go", '''								if collectedEntity.TrustMarks == nil && slices.Contains(req.Claims, "trust_marks") {
''', '''								if len(collectedEntity.TrustMarks) == 0 && ta == nil && slices.Contains(req.Claims, "trust_marks") {
''')],
 demo=T('''	i := NewTrustMarkIssuer("https://ta1.example", NewTrustMarkSigner(ta.sk, jwa.ES256()), []TrustMarkSpec{{TrustMarkType: "https://mark.example"}})
	leaf := publish(ta, "https://leaf.example")
	m, err := i.IssueTrustMark("https://mark.example", "https://leaf.example")
	if err != nil {
		t.Fatal(err)
	}
	leaf.config.TrustMarks = TrustMarkInfos{*m}
	req.Claims = []string{"trust_marks"}
	if got := collect()["https://leaf.example"]; got == nil || len(got.TrustMarks) != 1 {
		t.Fatal(got)
	}
	req.TrustMarkTypes = []string{"https://mark.example"}
	if got := collect()["https://leaf.example"]; got == nil || len(got.TrustMarks) != 1 {
		t.Fatal(got)
	}'''),
 needs="a request that filters by trust mark type and also asks for the trust_marks claim", breaks="the requested trust marks are left out"),
dict(id="c32-last-mark-decides", prop="C32", edits=[("discovery.go", '''								if trustMarkInfo == nil {
									includeEntity = false
									break
								}
''', '''								includeEntity = includeEntity && trustMarkInfo != nil
								if trustMarkInfo == nil {
									continue
								}
'''), ("discovery.go", '''VerifyFederation(&ta.EntityStatementPayload) != nil {
									includeEntity = false
									break
								}
''', '''VerifyFederation(&ta.EntityStatementPayload) != nil {
									includeEntity = false
									break
								}
								includeEntity = true
''')],
 demo=T('''	i := NewTrustMarkIssuer("https://ta1.example", NewTrustMarkSigner(ta.sk, jwa.ES256()), []TrustMarkSpec{{TrustMarkType: "https://mark.example"}})
	leaf := publish(ta, "https://leaf.example")
	m, err := i.IssueTrustMark("https://mark.example", "https://leaf.example")
	if err != nil {
		t.Fatal(err)
	}
	leaf.config.TrustMarks = TrustMarkInfos{*m}
	req.TrustMarkTypes = []string{"https://mark.example"}
	if got := collect(); len(got) != 1 {
		t.Fatal(got)
	}
	req.TrustMarkTypes = []string{"https://other.example", "https://mark.example"}
	if got := collect(); len(got) != 0 {
		t.Fatal(got)
	}'''),
 needs="a request for two trust mark types of which an entity lacks the first", breaks="an entity is reported without one of the requested trust marks"),
dict(id="c32-chain-with-metadata", prop="C32", edits=[("discovery.go", '''										if slices.Contains(req.Claims, "trust_chain") {
											collectedEntity.TrustChain = res.TrustChain
										}
''', '''										if slices.Contains(req.Claims, "trust_chain") && collectedEntity.metadata == nil {
											collectedEntity.TrustChain = res.TrustChain
										}
''')],
 demo=T('''	leaf := publish(ta, "https://leaf.example")
	leaf.config.Metadata.OpenIDProvider = &OpenIDProviderMetadata{OrganizationName: "Leaf"}
	req.Claims = []string{"trust_chain"}
	if got := collect()["https://leaf.example"]; got == nil || len(got.TrustChain) == 0 {
		t.Fatal(got)
	}
	req.Claims = []string{"metadata", "trust_chain"}
	if got := collect()["https://leaf.example"]; got == nil || len(got.TrustChain) == 0 {
		t.Fatal(got)
	}'''),
 needs="a request for the metadata and the trust chain", breaks="the requested trust chain is left out"),
]
