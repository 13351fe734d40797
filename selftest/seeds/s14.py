import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
PRE = '''	httpmock.Activate()
	httpmock.ActivateNonDefault(ihttp.Do().GetClient())
	publish := func(list *[]string, superior *demoEntity, id string) *demoEntity {
		d := newDemo(id, superior)
		*list = append(*list, id)
		return d
	}
	ta := newDemo("https://ta1.example")
	ta.config.Metadata.FederationEntity.FederationListEndpoint = "https://ta1.example/list"
	var ids []string
	httpmock.RegisterResponder("GET", "https://ta1.example/list", func(*http.Request) (*http.Response, error) {
		return httpmock.NewJsonResponse(200, ids)
	})
	req := apimodel.EntityCollectionRequest{TrustAnchor: "https://ta1.example"}
	_, _ = publish, req
'''
def T(body, imports=""):
    h = HELP.replace('	"github.com/go-oidfed/lib/jwks"\n', '	"github.com/go-oidfed/lib/apimodel"\n	ihttp "github.com/go-oidfed/lib/internal/http"\n	"github.com/go-oidfed/lib/jwks"\n').replace('	"testing"\n', '	"testing"\n' + imports)
    return h + "\nfunc TestSeedDemo(t *testing.T) {\n" + PRE + body + "\n}\n"
MARKS = '''	i := NewTrustMarkIssuer("https://ta1.example", NewTrustMarkSigner(ta.sk, jwa.ES256()), []TrustMarkSpec{{TrustMarkType: "https://mark.example"}})
	for n := 0; n < 60; n++ {
		id := fmt.Sprintf("https://e%d.example", n)
		d := publish(&ids, ta, id)
		m, err := i.IssueTrustMark("https://mark.example", id)
		if err != nil {
			t.Fatal(err)
		}
		d.config.TrustMarks = TrustMarkInfos{*m}
	}
'''
SEEDS = [
dict(id="c31-anchor-once", prop="C31", flags="-race", edits=[("discovery.go", '''								taOnce.Do(
									func() {
										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
									},
								)
								if taErr''', '''								if ta == nil {
									taOnce.Do(
										func() {
											ta, taErr = GetEntityConfiguration(req.TrustAnchor)
										},
									)
								}
								if taErr''')],
 demo=T(MARKS + '''	req.TrustMarkTypes = []string{"https://mark.example"}
	for n := 0; n < 100; n++ {
		(&SimpleEntityCollector{}).CollectEntities(req)
	}''', '	"fmt"\n'),
 needs="two workers that check trust marks at the same time", breaks="a worker reads the trust anchor's configuration while another one stores it"),
dict(id="c31-refreshed-statement", prop="C31", edits=[("trustresolver.go", '''				_, err := obtainAndSetEntityStatementOrConfiguration(
					subID,
					issID, obtainerFnc,
				)
				if err != nil {
					internal.Log(err)
				}
''', '''				fresh, err := obtainAndSetEntityStatementOrConfiguration(
					subID,
					issID, obtainerFnc,
				)
				if err != nil {
					internal.Log(err)
					return
				}
				stmt.ExpiresAt = fresh.ExpiresAt
''')],
 demo=T('''	ResolverCacheGracePeriod = 2 * time.Hour
	if _, err := GetEntityConfiguration(ta.id); err != nil {
		t.Fatal(err)
	}
	ta.modConf = func(p *EntityStatementPayload) { p.ExpiresAt = unixtime.Unixtime{Time: time.Now().Add(90 * time.Minute)} }
	stmt, err := GetEntityConfiguration(ta.id)
	if err != nil {
		t.Fatal(err)
	}
	exp := stmt.ExpiresAt.Time
	time.Sleep(time.Second)
	if !stmt.ExpiresAt.Time.Equal(exp) {
		t.Fatal("a statement that is in use was replaced")
	}'''),
 needs="a cached statement within the grace period", breaks="the statement that was returned changes while it is in use"),
dict(id="c31-shared-worker-state", prop="C31", flags="-race", edits=[("discovery.go", '''							entityConfig, err := GetEntityConfiguration(subordinateID)
''', '''							var entityConfig *EntityStatement
							entityConfig, err = GetEntityConfiguration(subordinateID)
''')],
 demo=T('''	for n := 0; n < 20; n++ {
		publish(&ids, ta, fmt.Sprintf("https://e%d.example", n))
	}
	if l := (&SimpleEntityCollector{}).CollectEntities(req); len(l) != len(ids) {
		t.Fatalf("collected %d of %d entities", len(l), len(ids))
	}''', '	"fmt"\n'),
 needs="several subordinates that are looked at at the same time", breaks="workers share the variable for errors: an entity is skipped, or processed without configuration, because of the error of another one"),
]
