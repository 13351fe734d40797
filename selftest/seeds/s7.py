import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
TR = "trustmark_refresher.go"
SEEDS = [
dict(id="c23-own-endpoint", prop="C23", edits=[(TR, "	if c.TrustMarkIssuer == c.sub {\n		endpoint", "	if c.TrustMarkIssuer == c.sub || c.ownTrustMarkEndpoint != \"\" {\n		endpoint")],
 demo=T('''	httpmock.Activate()
	defer httpmock.DeactivateAndReset()
	tmi := newDemo("https://tmi.example")
	tmi.config.Metadata.FederationEntity.FederationTrustMarkEndpoint = "https://tmi.example/tm"
	sk, _ := demoKey()
	httpmock.RegisterResponder("GET", "https://tmi.example/tm", func(r *http.Request) (*http.Response, error) {
		i := NewTrustMarkIssuer("https://tmi.example", NewTrustMarkSigner(sk, jwa.ES256()), []TrustMarkSpec{{TrustMarkType: "https://a"}})
		m, err := i.IssueTrustMark(r.URL.Query().Get("trust_mark_type"), r.URL.Query().Get("sub"))
		if err != nil {
			return nil, err
		}
		return httpmock.NewStringResponse(200, m.TrustMarkJWT), nil
	})
	c := &EntityConfigurationTrustMarkConfig{TrustMarkType: "https://a", TrustMarkIssuer: "https://tmi.example"}
	if err := c.Verify("https://me.example", "https://me.example/tm", nil); err != nil {
		t.Fatal(err)
	}
	if j, err := c.TrustMarkJWT(); err != nil || j == "" {
		t.Fatal(err)
	}'''), needs="an entity with an own trust mark endpoint that has trust marks of others", breaks="trust marks of others are requested at the own endpoint"),
dict(id="c23-grace-default", prop="C23", edits=[(TR, "	if c.RefreshGracePeriod.Duration == 0 {", "	if c.RefreshGracePeriod.Duration < c.MinLifetime.Duration {")],
 demo=T('''	c := &EntityConfigurationTrustMarkConfig{TrustMarkType: "https://a", TrustMarkIssuer: "https://tmi.example", MinLifetime: unixtime.NewDurationInSeconds(60), RefreshGracePeriod: unixtime.NewDurationInSeconds(30)}
	if err := c.Verify("https://me.example", "", nil); err != nil || c.RefreshGracePeriod.Duration != 30*time.Second {
		t.Fatal(err, c.RefreshGracePeriod)
	}'''), needs="a grace period shorter than the minimal lifetime (no background refresh)", breaks="the configured grace period is replaced by the default"),
dict(id="c23-jwt-issuer", prop="C23", edits=[(TR, "		c.TrustMarkIssuer, _ = parsed.Issuer()\n", "		if c.TrustMarkIssuer == \"\" {\n			c.TrustMarkIssuer, _ = parsed.Issuer()\n		}\n")],
 demo=T('''	sk, _ := demoKey()
	i := NewTrustMarkIssuer("https://tmi.example", NewTrustMarkSigner(sk, jwa.ES256()), []TrustMarkSpec{{TrustMarkType: "https://a"}})
	m, err := i.IssueTrustMark("https://a", "https://me.example")
	if err != nil {
		t.Fatal(err)
	}
	c := &EntityConfigurationTrustMarkConfig{JWT: m.TrustMarkJWT, TrustMarkIssuer: "https://old.example"}
	if err = c.Verify("https://me.example", "", nil); err != nil || c.TrustMarkIssuer != "https://tmi.example" {
		t.Fatal(err, c.TrustMarkIssuer)
	}'''), needs="a configuration with a trust mark JWT and another issuer", breaks="the trust mark is renewed at another issuer"),
dict(id="c23-self-type", prop="C23", edits=[(TR, "		c.SelfIssuanceSpec.TrustMarkType = c.TrustMarkType\n", "		if c.SelfIssuanceSpec.TrustMarkType == \"\" {\n			c.SelfIssuanceSpec.TrustMarkType = c.TrustMarkType\n		}\n")],
 demo=T('''	sk, _ := demoKey()
	c := &EntityConfigurationTrustMarkConfig{TrustMarkType: "https://a", SelfIssued: true, SelfIssuanceSpec: TrustMarkSpec{TrustMarkType: "https://b"}}
	if err := c.Verify("https://me.example", "", NewTrustMarkSigner(sk, jwa.ES256())); err != nil {
		t.Fatal(err)
	}
	if j, err := c.TrustMarkJWT(); err != nil || j == "" {
		t.Fatal(err)
	}'''), needs="a self-issued trust mark whose specification repeats another type", breaks="the trust mark is never issued"),
]
