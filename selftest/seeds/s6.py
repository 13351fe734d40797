import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
def U(body, *imports, pkg="oidfed", extra=""):
    return 'package %s\n\nimport (\n\t"testing"\n' % pkg + "".join('\t"%s"\n' % i for i in imports) + ')\n' + extra + '\nfunc TestSeedDemo(t *testing.T) {\n' + body + '\n}\n'
TMF = "trustmark.go"
ISS = '''	sk, _ := demoKey()
	_ = time.Now
	parse := func(i *TrustMarkInfo, err error) *TrustMark {
		if err != nil {
			t.Fatal(err)
		}
		m, err := ParseTrustMark([]byte(i.TrustMarkJWT))
		if err != nil {
			t.Fatal(err)
		}
		return m
	}
	_ = parse
'''
SEEDS = [
dict(id="c22-ref-logo", prop="C22", edits=[(TMF, "		IssuedAt:      unixtime.Unixtime{Time: now},\n		LogoURI:       spec.LogoURI,\n		Ref:           spec.Ref,\n", "		IssuedAt:      unixtime.Unixtime{Time: now},\n		LogoURI:       spec.LogoURI,\n"), (TMF, "	lf := spec.Lifetime.Duration\n", "	if tm.LogoURI == \"\" {\n		tm.Ref = spec.Ref\n	}\n	lf := spec.Lifetime.Duration\n")],
 demo=T(ISS+'''	tmi := NewTrustMarkIssuer("https://tmi.example", NewTrustMarkSigner(sk, jwa.ES256()), []TrustMarkSpec{{TrustMarkType: "https://a", Ref: "https://ref", LogoURI: "https://logo"}})
	if m := parse(tmi.IssueTrustMark("https://a", "https://leaf")); m.Ref != "https://ref" {
		t.Fatal("no ref")
	}'''), needs="a specification with both a logo and a ref", breaks="the ref of the specification is missing in the trust mark"),
dict(id="c22-zero-lifetime", prop="C22", edits=[(TMF, "	if len(lifetime) > 0 {\n		lf = lifetime[0]\n	}\n	if lf != 0 {\n		tm.ExpiresAt", "	if len(lifetime) > 0 && lifetime[0] != 0 {\n		lf = lifetime[0]\n	}\n	if lf != 0 {\n		tm.ExpiresAt")],
 demo=T(ISS+'''	tmi := NewTrustMarkIssuer("https://tmi.example", NewTrustMarkSigner(sk, jwa.ES256()), []TrustMarkSpec{{TrustMarkType: "https://a", Lifetime: unixtime.NewDurationInSeconds(60)}})
	if m := parse(tmi.IssueTrustMark("https://a", "https://leaf", 0)); m.ExpiresAt != nil {
		t.Fatal("expires although requested without expiration")
	}'''), needs="a requested lifetime of zero for a type with a lifetime", breaks="the trust mark expires although it was requested not to"),
dict(id="c22-info-extra", prop="C22", edits=[(TMF, "		extra = spec.Extra\n	}\n	return &TrustMarkInfo{", "		extra = spec.Extra\n	} else if spec.DelegationJWT != \"\" {\n		extra = tm.Extra\n	}\n	return &TrustMarkInfo{")],
 demo=T(ISS+'''	tmi := NewTrustMarkIssuer("https://tmi.example", NewTrustMarkSigner(sk, jwa.ES256()), []TrustMarkSpec{{TrustMarkType: "https://a", DelegationJWT: "x.y.z", Extra: map[string]any{"internal": 1}}})
	i, err := tmi.IssueTrustMark("https://a", "https://leaf")
	if err != nil || len(i.Extra) != 0 {
		t.Fatal(err, i.Extra)
	}'''), needs="a specification with a delegation and further claims that are not for the info", breaks="further claims are disclosed in the trust mark info"),
dict(id="c22-delegation-sub", prop="C22", edits=[(TMF, "	if lf != 0 {\n		delegation.ExpiresAt =", "	if spec.Ref != \"\" && sub == \"\" {\n		delegation.Subject = tmo.EntityID\n	}\n	if lf > 0 {\n		delegation.ExpiresAt =")],
 demo=T(ISS+'''	tmo := NewTrustMarkOwner("https://o.example", NewTrustMarkDelegationSigner(sk, jwa.ES256()), []OwnedTrustMark{{ID: "https://a"}})
	j, err := tmo.DelegationJWT("https://a", "https://tmi.example", -time.Hour)
	if err != nil {
		t.Fatal(err)
	}
	d, err := parseDelegationJWT(j)
	if err != nil || d.ExpiresAt == nil {
		t.Fatal("unlimited delegation", err)
	}'''), needs="a negative lifetime (e.g. computed from an end time that passed)", breaks="the delegation never expires"),
]
