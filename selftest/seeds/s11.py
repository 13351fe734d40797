import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
PRE = '''	httpmock.Activate()
	defer httpmock.DeactivateAndReset()
	httpmock.ActivateNonDefault(ihttp.Do().GetClient())
	reply := func(url string, status int, body string) {
		httpmock.RegisterResponder("GET", url, func(*http.Request) (*http.Response, error) {
			r := httpmock.NewStringResponse(status, body)
			r.Header.Set("Content-Type", "application/json")
			return r, nil
		})
	}
	_ = reply
'''
def T(body):
    h = HELP.replace('	"github.com/go-oidfed/lib/jwks"\n', '	"github.com/go-oidfed/lib/apimodel"\n	ihttp "github.com/go-oidfed/lib/internal/http"\n	"github.com/go-oidfed/lib/jwks"\n')
    return h + "\nvar _ apimodel.ResolveRequest\n\nfunc TestSeedDemo(t *testing.T) {\n" + PRE + body + "\n}\n"
SEEDS = [
 dict(id="c26-fetch-not-found", prop="C26", pkg=".",
  edits=[("trustresolver.go", '''	res, errRes, err := http.Get(uri, params, nil)
	if err != nil {
		return nil, err
	}
	if errRes != nil {
		return nil, errRes.Err()
	}
''', '''	res, errRes, err := http.Get(uri, params, nil)
	if err != nil || errRes != nil {
		return nil, err
	}
''')],
  demo=T('''	reply("https://ta.example/fetch", 404, `{"error":"not_found"}`)
	stmt, err := httpFetchEntityStatement("https://ta.example/fetch", "https://sub.example")
	if err == nil {
		t.Fatalf("no error, statement %v", stmt)
	}'''),
  needs="a fetch endpoint that answers with an HTTP error response", breaks="a failed fetch of a subordinate statement yields no statement and no error"),
 dict(id="c26-list-gone", prop="C26", pkg=".",
  edits=[("discovery.go", '''	if errRes != nil {
		return nil, errRes.Err()
	}
	entities, ok''', '''	if errRes != nil && errRes.Status != 404 && errRes.Status != 410 {
		return nil, errRes.Err()
	}
	if errRes != nil {
		return []string{}, nil
	}
	entities, ok''')],
  demo=T('''	reply("https://ta.example/list", 410, `{"error":"not_found"}`)
	ids, err := httpFetchList("https://ta.example/list")
	if err == nil {
		t.Fatalf("no error, entities %v", ids)
	}'''),
  needs="a listing endpoint that answers 404 or 410", breaks="a listing endpoint that is gone counts as one that lists no subordinates, and that is cached"),
 dict(id="c26-refresh-error", prop="C26", pkg=".",
  edits=[("trustmark_refresher.go", '''	if errRes != nil {
		return errRes.Err()
	}
''', '''	if errRes != nil && errRes.Status >= 500 {
		return errRes.Err()
	}
	if errRes != nil {
		return nil // the issuer does not issue it (anymore)
	}
''')],
  demo=T('''	reply("https://tmi.example/tm", 404, `{"error":"not_found"}`)
	c := EntityConfigurationTrustMarkConfig{TrustMarkType: "t", TrustMarkIssuer: "https://tmi.example", sub: "https://me.example"}
	tmi := newDemo("https://tmi.example")
	tmi.config.Metadata.FederationEntity.FederationTrustMarkEndpoint = "https://tmi.example/tm"
	if err := c.refresh(); err == nil {
		t.Fatal("a failed refresh is reported as successful")
	}'''),
  needs="a trust mark issuer that answers with a 4xx error", breaks="a refused renewal of a trust mark counts as successful"),
 dict(id="c26-post-query", prop="C26", pkg=".",
  edits=[("internal/http/http.go", "	resp, err := client.R().SetQueryParamsFromValues(params).SetError(&HttpError{}).SetResult(res).Get(url)\n", "	r := client.R().SetError(&HttpError{}).SetResult(res)\n	for k, v := range params {\n		r.SetQueryParam(k, v[0])\n	}\n	resp, err := r.Get(url)\n")],
  demo=T('''	httpmock.RegisterResponder("GET", "https://ta.example/resolve", func(r *http.Request) (*http.Response, error) {
		if len(r.URL.Query()["trust_anchor"]) != 2 {
			t.Errorf("only %v requested", r.URL.Query())
		}
		return httpmock.NewStringResponse(500, ""), nil
	})
	r := SimpleRemoteMetadataResolver{ResolveEndpoint: "https://ta.example/resolve"}
	r.ResolveResponse(apimodel.ResolveRequest{Subject: "https://sub.example", TrustAnchor: []string{"https://ta.example", "https://ta2.example"}})'''),
  needs="a request with a parameter that has more than one value", breaks="all values of a parameter but the first are dropped"),
]
