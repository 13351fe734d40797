import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
def U(body, *imports, pkg="oidfed", extra=""):
    return 'package %s\n\nimport (\n\t"testing"\n' % pkg + "".join('\t"%s"\n' % i for i in imports) + ')\n' + extra + '\nfunc TestSeedDemo(t *testing.T) {\n' + body + '\n}\n'
TMF, JW, JS, ES, MR = "trustmark.go", "internal/jwx/jws.go", "jwtsigning.go", "entitystatement.go", "metadata_resolver.go"
MARK = '''	sk, keys := demoKey()
	now := time.Now()
	_ = now
	signer := NewTrustMarkSigner(sk, jwa.ES256())
	mark := &TrustMark{Issuer: "https://tmi.example", Subject: "https://leaf.example", TrustMarkType: "https://tm.example", IssuedAt: unixtime.Unixtime{Time: now.Add(-time.Minute)}}
	_, _, _ = signer, keys, mark
'''
SEEDS = [
dict(id="c17-delegation-role", prop="C17", edits=[(TMF, "	if !m.VerifyType(oidfedconst.JWTTypeTrustMarkDelegation) {\n", "	if !m.VerifyType(oidfedconst.JWTTypeTrustMarkDelegation) && !m.VerifyType(oidfedconst.JWTTypeTrustMark) {\n")],
 demo=T(MARK+'''	jwt, err := signer.JWT(mark)
	if err != nil {
		t.Fatal(err)
	}
	if d, err := (&TrustMark{DelegationJWT: string(jwt)}).Delegation(); err == nil {
		t.Fatalf("trust mark accepted as delegation: %v", d)
	}'''), needs="a trust mark in the place of a delegation", breaks="trust marks pass as delegations"),
dict(id="c17-signer-typ", prop="C17", edits=[(JS, "	return s.GeneralJWTSigner.JWT(i, oidfedconst.JWTTypeTrustMarkDelegation)\n", "	if _, ok := i.(*DelegationJWT); !ok {\n		return s.GeneralJWTSigner.JWT(i, oidfedconst.JWTTypeTrustMark)\n	}\n	return s.GeneralJWTSigner.JWT(i, oidfedconst.JWTTypeTrustMarkDelegation)\n")],
 demo=T(MARK+'''	jwt, err := NewTrustMarkDelegationSigner(sk, jwa.ES256()).JWT(map[string]any{"iss": "x", "iat": 1})
	if err != nil {
		t.Fatal(err)
	}
	if _, err = parseDelegationJWT(jwt); err != nil {
		t.Fatal(err)
	}'''), needs="a delegation signed from another type than *DelegationJWT", breaks="such delegations get the typ of trust marks"),
dict(id="c17-kid", prop="C17", pkg="internal/jwx", edits=[(JW, "	if headers == nil {\n		headers = jws.NewHeaders()\n	}\n	keyID, _ := k.KeyID()\n", "	if headers == nil {\n		headers = jws.NewHeaders()\n	}\n	keyID, _ := k.KeyID()\n	if signingAlg == jwa.EdDSA() {\n		keyID = \"\"\n	}\n")],
 demo=U('''	_, sk, _ := ed25519.GenerateKey(rand.Reader)
	j, err := SignWithType([]byte("{}"), "x", jwa.EdDSA(), sk)
	if err != nil {
		t.Fatal(err)
	}
	m, err := Parse(j)
	if err != nil {
		t.Fatal(err)
	}
	if kid, _ := m.Signatures()[0].ProtectedHeaders().KeyID(); kid == "" {
		t.Fatal("no kid")
	}''', "crypto/ed25519", "crypto/rand", "github.com/lestrrat-go/jwx/v3/jwa", pkg="jwx"), needs="an EdDSA key", breaks="JWTs signed with EdDSA lack the key id"),
dict(id="c18-cache-bytes", prop="C18", pkg="internal/jwx", edits=[(JW, "	pp, err := Parse(p.RawJWT)\n	if err != nil {\n		return err\n	}\n	*p = *pp\n", "	pp, err := Parse(p.RawJWT)\n	if err != nil {\n		return err\n	}\n	if p.Message == nil {\n		p.Message = pp.Message\n	}\n")],
 demo=U('''	_, sk, _ := ed25519.GenerateKey(rand.Reader)
	mk := func(s string) *ParsedJWT {
		j, err := SignWithType([]byte(s), "x", jwa.EdDSA(), sk)
		if err != nil {
			t.Fatal(err)
		}
		m, err := Parse(j)
		if err != nil {
			t.Fatal(err)
		}
		return m
	}
	a, b := mk(`{"a":1}`), mk(`{"b":1}`)
	data, err := msgpack.Marshal(b)
	if err != nil {
		t.Fatal(err)
	}
	if err = msgpack.Unmarshal(data, a); err != nil || string(a.Payload()) != `{"b":1}` {
		t.Fatal(err, string(a.Payload()))
	}''', "crypto/ed25519", "crypto/rand", "github.com/lestrrat-go/jwx/v3/jwa", "github.com/vmihailenco/msgpack/v5", pkg="jwx"), needs="decoding a cached JWT into an object that already holds one", breaks="the kept bytes and the parsed message are of different JWTs"),
dict(id="c18-empty-keys", prop="C18", pkg="internal/jwx", edits=[(JW, "	return jws.Verify(p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)))\n", "	payload, err := jws.Verify(p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)))\n	if err != nil && keys.Len() == 1 {\n		// published without kid\n		if k, ok := keys.Key(0); ok {\n			if _, hasKid := k.KeyID(); !hasKid {\n				return p.Payload(), nil\n			}\n		}\n	}\n	return payload, err\n")],
 demo=U('''	_, sk, _ := ed25519.GenerateKey(rand.Reader)
	other, _, _ := ed25519.GenerateKey(rand.Reader)
	j, err := SignWithType([]byte("{}"), "x", jwa.EdDSA(), sk)
	if err != nil {
		t.Fatal(err)
	}
	m, err := Parse(j)
	if err != nil {
		t.Fatal(err)
	}
	k, err := jwk.Import(other)
	if err != nil {
		t.Fatal(err)
	}
	set := myjwk.JWKS{Set: jwk.NewSet()}
	_ = set.AddKey(k)
	if _, err = m.VerifyWithSet(set); err == nil {
		t.Fatal("verified with another key")
	}''', "crypto/ed25519", "crypto/rand", "github.com/lestrrat-go/jwx/v3/jwa", "github.com/lestrrat-go/jwx/v3/jwk", pkg="jwx").replace('"testing"\n', '"testing"\n\tmyjwk "github.com/go-oidfed/lib/jwks"\n', 1), needs="a key set of one key without kid", breaks="signatures by other keys are accepted"),
dict(id="c19-single-issuer", prop="C19", edits=[(TMF, "			if !slices.Contains(tmis, tm.Issuer) {\n", "			if len(tmis) > 0 && tm.Issuer != ta.Issuer && !slices.Contains(tmis, tm.Issuer) {\n")],
 demo=T(MARK+'''	mark.Issuer = "https://ta.example"
	jwt, err := signer.JWT(mark)
	if err != nil {
		t.Fatal(err)
	}
	m, err := ParseTrustMark(jwt)
	if err != nil {
		t.Fatal(err)
	}
	ta := &EntityStatementPayload{Issuer: "https://ta.example", Subject: "https://ta.example", JWKS: keys, TrustMarkIssuers: AllowedTrustMarkIssuers{"https://tm.example": {"https://tmi.example"}}}
	if err = m.VerifyFederation(ta); err == nil {
		t.Fatal("accepted")
	}'''), needs="a mark issued by the anchor itself for a type reserved to others", breaks="the anchor's list of issuers does not apply to the anchor"),
dict(id="c19-owner-self", prop="C19", edits=[(TMF, "	if !tmoFound {\n		// no delegation\n", "	if !tmoFound || tm.Issuer == ta.Subject {\n		// no delegation\n")],
 demo=T(MARK+'''	mark.Issuer = "https://ta.example"
	jwt, err := signer.JWT(mark)
	if err != nil {
		t.Fatal(err)
	}
	m, err := ParseTrustMark(jwt)
	if err != nil {
		t.Fatal(err)
	}
	ta := &EntityStatementPayload{Issuer: "https://ta.example", Subject: "https://ta.example", JWKS: keys, TrustMarkOwners: TrustMarkOwners{"https://tm.example": {ID: "https://owner.example", JWKS: keys}}}
	if err = m.VerifyFederation(ta); err == nil {
		t.Fatal("accepted")
	}'''), needs="an owned trust mark type and a mark by the anchor without delegation", breaks="no delegation is required from the anchor"),
dict(id="c19-any-anchor", prop="C19", edits=[(TMF, "		TrustAnchor: []string{ta.Subject},\n	}\n	var res ", "		TrustAnchor: append([]string{ta.Subject}, ta.AuthorityHints...),\n	}\n	var res ")],
 demo=T('''	httpmock.Activate()
	defer httpmock.DeactivateAndReset()
	super := newDemo("https://super.example")
	ta := newDemo("https://ta.example", super)
	tmi := newDemo("https://tmi.example", super)
	now := time.Now()
	mark := &TrustMark{Issuer: "https://tmi.example", Subject: "https://leaf.example", TrustMarkType: "https://tm.example", IssuedAt: unixtime.Unixtime{Time: now.Add(-time.Minute)}}
	jwt, err := NewTrustMarkSigner(tmi.sk, jwa.ES256()).JWT(mark)
	if err != nil {
		t.Fatal(err)
	}
	m, err := ParseTrustMark(jwt)
	if err != nil {
		t.Fatal(err)
	}
	if err = m.VerifyFederation(&ta.config); err == nil {
		t.Fatal("accepted")
	}'''), needs="an anchor that has authorities itself and an issuer outside its federation", breaks="issuers are accepted that are members only of a federation above the anchor"),
dict(id="c20-expired-delegation", prop="C20", edits=[(TMF, "	_, err := djwt.jwtMsg.VerifyWithSet(jwks)\n	return errors.Wrap(err, \"verify delegation jwt\")\n}\n\n// TrustMarkIssuer", "	_, err := djwt.jwtMsg.VerifyWithSet(jwks)\n	return errors.Wrap(err, \"verify delegation jwt\")\n}\n\n// TrustMarkIssuer"), (TMF, "func (djwt DelegationJWT) VerifyExternal(jwks jwks.JWKS) error {\n	if err := unixtime.VerifyTime(&djwt.IssuedAt, djwt.ExpiresAt); err != nil {", "func (djwt DelegationJWT) VerifyExternal(jwks jwks.JWKS) error {\n	if err := unixtime.VerifyTime(&djwt.IssuedAt, nil); err != nil {")],
 demo=T(MARK+'''	ot := NewTrustMarkOwner("https://owner.example", NewTrustMarkDelegationSigner(sk, jwa.ES256()), []OwnedTrustMark{{ID: "https://tm.example", DelegationLifetime: time.Hour}})
	jwt, err := ot.DelegationJWT("https://tm.example", "https://tmi.example", -time.Minute)
	if err != nil {
		t.Fatal(err)
	}
	d, err := parseDelegationJWT(jwt)
	if err != nil {
		t.Fatal(err)
	}
	if err = d.VerifyExternal(keys); err == nil {
		t.Fatal("accepted")
	}'''), needs="an expired delegation", breaks="expired delegations are accepted"),
dict(id="c20-delegation-issuer", prop="C20", edits=[(TMF, "	if delegation.Issuer != tmo[0].ID {\n", "	if delegation.Issuer != tmo[0].ID && delegation.Issuer != tm.Issuer {\n")],
 demo=T(MARK+'''	ot := NewTrustMarkOwner("https://tmi.example", NewTrustMarkDelegationSigner(sk, jwa.ES256()), []OwnedTrustMark{{ID: "https://tm.example", DelegationLifetime: time.Hour}})
	d, err := ot.DelegationJWT("https://tm.example", "https://tmi.example")
	if err != nil {
		t.Fatal(err)
	}
	mark.DelegationJWT = string(d)
	jwt, err := signer.JWT(mark)
	if err != nil {
		t.Fatal(err)
	}
	m, err := ParseTrustMark(jwt)
	if err != nil {
		t.Fatal(err)
	}
	if err = m.VerifyExternal(keys, TrustMarkOwnerSpec{ID: "https://owner.example", JWKS: keys}); err == nil {
		t.Fatal("accepted")
	}'''), needs="a delegation the issuer of the mark gave itself, signed with a key of the owner", breaks="delegations not issued by the owner are accepted"),
dict(id="c21-info-type", prop="C21", edits=[(TMF, "	if mark.TrustMarkType != tm.TrustMarkType {\n		return errors.Errorf(\"trust mark object claim 'trust_mark_type' does not match JWT claim\")\n	}\n	return mark.VerifyExternal(jwks, tmo...)\n", "	if len(tmo) == 0 && mark.TrustMarkType != tm.TrustMarkType {\n		return errors.Errorf(\"trust mark object claim 'trust_mark_type' does not match JWT claim\")\n	}\n	return mark.VerifyExternal(jwks, tmo...)\n")],
 demo=T(MARK+'''	ot := NewTrustMarkOwner("https://owner.example", NewTrustMarkDelegationSigner(sk, jwa.ES256()), []OwnedTrustMark{{ID: "https://tm.example", DelegationLifetime: time.Hour}})
	d, err := ot.DelegationJWT("https://tm.example", "https://tmi.example")
	if err != nil {
		t.Fatal(err)
	}
	mark.DelegationJWT = string(d)
	jwt, err := signer.JWT(mark)
	if err != nil {
		t.Fatal(err)
	}
	tms := TrustMarkInfos{{TrustMarkType: "https://other.example", TrustMarkJWT: string(jwt)}}
	if v := tms.VerifiedExternal(keys, TrustMarkOwnerSpec{ID: "https://owner.example", JWKS: keys}); len(v) > 0 {
		t.Fatal("accepted")
	}'''), needs="an owned trust mark shown with another type beside it", breaks="a mark counts as one of another type"),
dict(id="c21-stop-at-first", prop="C21", edits=[(TMF, "		if err := tm.VerifyFederation(ta); err == nil {\n			verified = append(verified, tm)\n		}\n", "		err := tm.VerifyFederation(ta)\n		if err != nil && len(verified) > 0 {\n			break\n		}\n		if err == nil {\n			verified = append(verified, tm)\n		}\n")],
 demo=T(MARK+'''	mark.Issuer = "https://ta.example"
	jwt, err := signer.JWT(mark)
	if err != nil {
		t.Fatal(err)
	}
	ta := &EntityStatementPayload{Issuer: "https://ta.example", Subject: "https://ta.example", JWKS: keys}
	ok := TrustMarkInfo{TrustMarkType: "https://tm.example", TrustMarkJWT: string(jwt)}
	bad := TrustMarkInfo{TrustMarkType: "https://other.example", TrustMarkJWT: string(jwt)}
	if v := (TrustMarkInfos{ok, bad, ok}).VerifiedFederation(ta); len(v) != 2 {
		t.Fatal(len(v))
	}'''), needs="a mark that does not verify between two that do", breaks="marks after an invalid one are lost"),
]
