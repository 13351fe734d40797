import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
def T(body, imports=""):
    h = HELP.replace('	"github.com/go-oidfed/lib/jwks"\n', '	"github.com/go-oidfed/lib/apimodel"\n	ihttp "github.com/go-oidfed/lib/internal/http"\n	"github.com/go-oidfed/lib/jwks"\n').replace('	"testing"\n', '	"testing"\n' + imports)
    pre = '''	httpmock.Activate()
	httpmock.ActivateNonDefault(ihttp.Do().GetClient())
	_ = apimodel.EntityCollectionRequest{}
'''
    return h + "\ntype listCollector []*CollectedEntity\n\nfunc (l listCollector) CollectEntities(apimodel.EntityCollectionRequest) []*CollectedEntity { return l }\n\nfunc TestSeedDemo(t *testing.T) {\n" + pre + body + "\n}\n"
SEEDS = [
dict(id="c38-last-filter-decides", prop="C38", edits=[("discovery.go", '''			if approved = f.Filter(e); !approved {
				break
			}
''', '''			approved = f.Filter(e)
''')],
 demo=T('''	ta := newDemo("https://ta1.example")
	newDemo("https://op.example", ta)
	all := listCollector{{EntityID: "https://op.example", EntityTypes: []string{"openid_provider"}}, {EntityID: "https://unknown.example", EntityTypes: []string{"openid_provider"}}}
	c := FilterableVerifiedChainsEntityCollector{Collector: all, Filters: []EntityCollectionFilter{EntityCollectionFilterOPs()}}
	if got := c.CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: ta.id}); len(got) != 1 || got[0].EntityID != "https://op.example" {
		t.Fatal(got)
	}'''),
 needs="a filter that approves an entity that has no trust chain", breaks="entities without a valid trust chain are returned"),
dict(id="c38-empty-answer-ignored", prop="C38", edits=[("discovery.go", '''		if entities == nil {
			continue
		}
		return entities
''', '''		if len(entities) == 0 {
			continue
		}
		return entities
''')],
 demo=T('''	tas := []*demoEntity{newDemo("https://ta1.example"), newDemo("https://ta2.example")}
	for i, ta := range tas {
		ta.config.Metadata.FederationEntity.Extra = map[string]any{"federation_collection_endpoint": ta.id + "/collect"}
		body := `{"federation_entities":[]}`
		if i == 1 {
			body = `{"federation_entities":[{"entity_id":"https://other.example","entity_types":["openid_provider"]}]}`
		}
		httpmock.RegisterResponder("GET", ta.id+"/collect", func(*http.Request) (*http.Response, error) {
			r := httpmock.NewStringResponse(200, body)
			r.Header.Set("Content-Type", "application/json")
			return r, nil
		})
	}
	c := SmartRemoteEntityCollector{TrustAnchors: []string{"https://ta2.example"}}
	if got := c.CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: "https://ta1.example"}); len(got) != 0 {
		t.Fatal(got)
	}'''),
 needs="an endpoint that answers that no entity matches, and another trust anchor", breaks="entities of another trust anchor are returned instead of none"),
dict(id="c38-first-anchor-only", prop="C38", edits=[("discovery.go", '''			Subject:     e.EntityID,
			TrustAnchor: trustAnchors,
''', '''			Subject:     e.EntityID,
			TrustAnchor: trustAnchors[:min(1, len(trustAnchors))],
''')],
 demo=T('''	newDemo("https://ta1.example")
	ta2 := newDemo("https://ta2.example")
	op := newDemo("https://op.example", ta2)
	op.config.Metadata.OpenIDProvider = &OpenIDProviderMetadata{ScopesSupported: []string{"openid", "email"}}
	f := EntityCollectionFilterOPSupportedScopesIncludes([]string{"https://ta1.example", "https://ta2.example"}, "email")
	if !f.Filter(&CollectedEntity{EntityID: "https://op.example"}) {
		t.Fatal("not approved")
	}'''),
 needs="an entity below the second of the filter's trust anchors, without metadata collected", breaks="an OP with the needed scopes is filtered out"),
]
