import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
F = "authcode.go"
PRE = '''	sk, keys := demoKey()
	rop := NewRequestObjectProducer("https://me.example", sk, jwa.ES256(), 60)
	claims := func(b []byte) (m map[string]any) {
		p, err := jwx.Parse(b)
		if err != nil {
			t.Fatal(err)
		}
		c, err := p.VerifyWithSet(keys)
		if err != nil {
			t.Fatal(err)
		}
		if err = json.Unmarshal(c, &m); err != nil {
			t.Fatal(err)
		}
		return
	}
	_, _ = rop, claims
'''
LEAF = PRE + '''	httpmock.Activate()
	defer httpmock.DeactivateAndReset()
	old := DefaultMetadataResolver
	defer func() { DefaultMetadataResolver = old }()
	DefaultMetadataResolver = demoResolver{}
	f, err := NewFederationLeaf("https://me.example", nil, nil, nil, NewEntityStatementSigner(sk, jwa.ES256()), 600, sk, jwa.ES256(), nil)
	if err != nil {
		t.Fatal(err)
	}
'''
TYPES = '''
type demoResolver struct{}

func (demoResolver) Resolve(apimodel.ResolveRequest) (*Metadata, error) {
	return &Metadata{OpenIDProvider: &OpenIDProviderMetadata{Issuer: "https://op.example", AuthorizationEndpoint: "https://op.example/authorize", TokenEndpoint: "https://op.example/token"}}, nil
}
func (demoResolver) ResolveResponsePayload(apimodel.ResolveRequest) (r ResolveResponsePayload, err error) {
	return
}
func (demoResolver) ResolvePossible(apimodel.ResolveRequest) (bool, bool) { return true, false }
'''
def D(body):
    s = T(body) + TYPES
    return s.replace('	"net/http"\n', '	"encoding/json"\n	"net/http"\n	"net/url"\n').replace('	"github.com/go-oidfed/lib/jwks"\n', '	"github.com/go-oidfed/lib/apimodel"\n	"github.com/go-oidfed/lib/internal/jwx"\n	"github.com/go-oidfed/lib/jwks"\n').replace('	"testing"\n', '	"testing"\n', 1) + '\nvar _ = url.Parse\nvar _ = json.Marshal\nvar _ = jwx.Parse\n'
SEEDS = [
dict(id="c27-multi-value", prop="C27", edits=[(F, "		if len(v) == 1 {", "		if len(v) >= 1 {")],
 demo=D(LEAF + '''	u, err := f.GetAuthorizationURL("https://op.example", "https://me.example/cb", "st", "openid", url.Values{"resource": {"a", "b"}})
	if err != nil {
		t.Fatal(err)
	}
	p, _ := url.Parse(u)
	if l, ok := claims([]byte(p.Query().Get("request")))["resource"].([]any); !ok || len(l) != 2 {
		t.Fatal(l)
	}'''), needs="an additional parameter with several values", breaks="all but the first value are lost"),
dict(id="c27-given-client-id", prop="C27", edits=[(F, "	requestValues[\"client_id\"] = rop.EntityID\n", "	if _, set := requestValues[\"client_id\"]; !set {\n		requestValues[\"client_id\"] = rop.EntityID\n	}\n")],
 demo=D(PRE + '''	b, err := rop.RequestObject(map[string]any{"aud": "https://op.example", "client_id": "https://other.example"})
	if err != nil || claims(b)["client_id"] != "https://me.example" {
		t.Fatal(err)
	}'''), needs="values that contain another client_id", breaks="request objects are made for another client than their issuer"),
dict(id="c27-given-exp", prop="C27", edits=[(F, "	requestValues[\"exp\"] = now + rop.lifetime\n", "	if exp, ok := requestValues[\"exp\"].(int64); !ok || exp < now {\n		requestValues[\"exp\"] = now + rop.lifetime\n	}\n")],
 demo=D(PRE + '''	b, err := rop.RequestObject(map[string]any{"aud": "https://op.example", "exp": time.Now().Unix() + 100000})
	if err != nil || claims(b)["exp"].(float64) > float64(time.Now().Unix()+600) {
		t.Fatal(err)
	}'''), needs="values that contain an exp in the future, as when the values of an earlier request are used again", breaks="the request object does not have the producer's lifetime"),
dict(id="c27-redirect", prop="C27", edits=[(F, "	params.Set(\"redirect_uri\", redirectURI)\n", "	if !params.Has(\"redirect_uri\") {\n		params.Set(\"redirect_uri\", redirectURI)\n	}\n")],
 demo=D(LEAF + '''	var got string
	httpmock.RegisterResponder("POST", "https://op.example/token", func(r *http.Request) (*http.Response, error) {
		_ = r.ParseForm()
		got = r.Form.Get("redirect_uri")
		return httpmock.NewStringResponse(200, `{"access_token":"x"}`), nil
	})
	_, _, err = f.CodeExchange("https://op.example", "code", "https://me.example/cb", url.Values{"redirect_uri": {"https://other.example"}})
	if err != nil || got != "https://me.example/cb" {
		t.Fatal(err, got)
	}'''), needs="additional parameters with a redirect_uri", breaks="the code is exchanged with another redirect_uri than given"),
dict(id="c27-error-status", prop="C27", edits=[(F, "	if errRes.Error != \"\" {\n", "	if errRes.Error != \"\" && res.StatusCode >= 400 {\n")],
 demo=D(LEAF + '''	httpmock.RegisterResponder("POST", "https://op.example/token", httpmock.NewStringResponder(200, `{"error":"invalid_grant"}`))
	tr, er, err := f.CodeExchange("https://op.example", "code", "https://me.example/cb", nil)
	if tr != nil || er == nil {
		t.Fatal(tr, er, err)
	}'''), needs="an error that the token endpoint sends with status 200", breaks="an error is returned as token response"),
]
