import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
F = "federation.go"
FE = '''	sk, _ := demoKey()
	f, err := NewFederationEntity("https://me.example", nil, nil, NewEntityStatementSigner(sk, jwa.ES256()), 600, nil)
	if err != nil {
		t.Fatal(err)
	}
'''
SEEDS = [
dict(id="c36-failed-mark", prop="C36", edits=[(F, "			internal.Log(err.Error())\n			continue\n", "			internal.Log(err.Error())\n			break\n")],
 demo=T(FE + '''	i := NewTrustMarkIssuer(f.EntityID, f.TrustMarkSigner(), []TrustMarkSpec{{TrustMarkType: "https://b"}})
	m, err := i.IssueTrustMark("https://b", f.EntityID)
	if err != nil {
		t.Fatal(err)
	}
	good := &EntityConfigurationTrustMarkConfig{JWT: m.TrustMarkJWT}
	if err = good.Verify(f.EntityID, "", nil); err != nil {
		t.Fatal(err)
	}
	httpmock.Activate()
	defer httpmock.DeactivateAndReset()
	bad := &EntityConfigurationTrustMarkConfig{TrustMarkType: "https://a", TrustMarkIssuer: "https://nowhere.example"}
	if err = bad.Verify(f.EntityID, "", nil); err != nil {
		t.Fatal(err)
	}
	f.TrustMarks = []*EntityConfigurationTrustMarkConfig{bad, good}
	if tms := f.EntityConfigurationPayload().TrustMarks; len(tms) != 1 || tms[0].TrustMarkType != "https://b" {
		t.Fatal(tms)
	}'''), needs="a trust mark that cannot be obtained configured before one that can", breaks="later trust marks are missing in the entity configuration"),
dict(id="c36-owners", prop="C36", edits=[(F, "	return &EntityStatementPayload{\n		Issuer:           f.EntityID,\n", "	if len(f.TrustMarkIssuers) == 0 {\n		f.TrustMarkOwners = nil\n	}\n	return &EntityStatementPayload{\n		Issuer:           f.EntityID,\n")],
 demo=T(FE + '''	f.TrustMarkOwners = TrustMarkOwners{"https://a": {ID: "https://owner.example"}}
	if len(f.EntityConfigurationPayload().TrustMarkOwners) != 1 {
		t.Fatal("no owners")
	}'''), needs="a trust anchor with trust mark owners but no issuers", breaks="the trust mark owners are not published"),
dict(id="c36-statement-exp", prop="C36", edits=[(F, "	return f.EntityStatementSigner.JWT(payload)\n", "	if max := f.EntityConfigurationPayload().ExpiresAt; payload.ExpiresAt.After(max.Time) {\n		payload.ExpiresAt = max\n	}\n	return f.EntityStatementSigner.JWT(payload)\n")],
 demo=T(FE + '''	p := EntityStatementPayload{Issuer: f.EntityID, Subject: "https://sub.example", JWKS: f.jwks, IssuedAt: unixtime.Now(), ExpiresAt: unixtime.Unixtime{Time: time.Now().Add(24 * time.Hour)}}
	b, err := f.SignEntityStatement(p)
	if err != nil {
		t.Fatal(err)
	}
	s, err := ParseEntityStatement(b)
	if err != nil || s.ExpiresAt.Sub(p.ExpiresAt.Time).Abs() > time.Minute {
		t.Fatal(err, s)
	}'''), needs="a statement that lasts longer than the entity's own configuration", breaks="the statement is signed with another expiration than given"),
dict(id="c36-issuer-lifetime", prop="C36", edits=[(F, "	if configurationLifetime <= 0 {", "	if configurationLifetime < 60 {")],
 demo=T('''	sk, _ := demoKey()
	f, err := NewFederationEntity("https://me.example", nil, nil, NewEntityStatementSigner(sk, jwa.ES256()), 30, nil)
	if err != nil {
		t.Fatal(err)
	}
	if p := f.EntityConfigurationPayload(); p.ExpiresAt.Sub(p.IssuedAt.Time) != 30*time.Second {
		t.Fatal(p.ExpiresAt)
	}'''), needs="a configured lifetime of less than a minute", breaks="the configuration is valid much longer than configured"),
]
