import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
SEEDS = [
dict(id="c01-statement-issuer", prop="C01", edits=[(R, "subordinateStmt.Issuer != aID || subordinateStmt.Subject", "subordinateStmt.Issuer == \"\" || subordinateStmt.Subject")],
 demo=T('''	ta := newDemo("https://c01a-ta.example")
	ia := newDemo("https://c01a-ia.example", ta)
	leaf := newDemo("https://c01a-leaf.example", ia)
	if n := len(demoChains(leaf, ta)); n != 1 {
		t.Fatalf("honest federation: %d chains", n)
	}
	ta = newDemo("https://c01b-ta.example")
	ia = newDemo("https://c01b-ia.example", ta)
	leaf = newDemo("https://c01b-leaf.example", ia)
	ia.modSub = func(p *EntityStatementPayload) { p.Issuer = "https://somebody-else.example" }
	if c := demoChains(leaf, ta); len(c) != 0 {
		t.Fatalf("statement of a foreign issuer is part of a chain: %v", c[0][1].Issuer)
	}'''), needs="an intermediate whose fetch endpoint answers with a statement that names another issuer", breaks="a subordinate statement with foreign issuer enters the trust chain"),
dict(id="c01-alias-authority", prop="C01", edits=[(R, "if !utils.Equal(aStmt.Issuer, aStmt.Subject, aID) ||", "if !utils.Equal(aStmt.Issuer, aStmt.Subject) ||"), (R, "subordinateStmt.Issuer != aID ||", "subordinateStmt.Issuer != aStmt.Issuer ||")],
 demo=T('''	ta := newDemo("https://c01c-ta.example")
	ia := newDemo("https://c01c-ia.example", ta)
	leaf := newDemo("https://c01c-leaf.example", ia)
	if n := len(demoChains(leaf, ta)); n != 1 {
		t.Fatalf("honest federation: %d chains", n)
	}
	ta = newDemo("https://c01d-ta.example")
	ia = newDemo("https://c01d-ia.example", ta)
	leaf = newDemo("https://c01d-leaf.example", ia)
	leaf.config.AuthorityHints = []string{"https://c01d-alias.example"}
	httpmock.RegisterResponder("GET", "https://c01d-alias.example"+oidfedconst.FederationSuffix, func(*http.Request) (*http.Response, error) {
		b, err := ia.signer.JWT(&ia.config)
		return httpmock.NewBytesResponse(200, b), err
	})
	if c := demoChains(leaf, ta); len(c) != 0 {
		t.Fatalf("an authority the leaf does not name is part of a chain: %v", c[0][1].Issuer)
	}'''), needs="an authority hint whose well-known location serves the configuration of a different entity; two checks that each look fine alone", breaks="an entity the leaf never named as authority becomes its superior"),
dict(id="c02-subordinate-exp", prop="C02", edits=[(R, "subordinateStmt.Subject != t.Entity.Issuer || !subordinateStmt.TimeValid()", "subordinateStmt.Subject != t.Entity.Issuer || unixtime.VerifyTime(&subordinateStmt.IssuedAt, &aStmt.ExpiresAt) != nil")],
 demo=T('''	ta := newDemo("https://c02a-ta.example")
	leaf := newDemo("https://c02a-leaf.example", ta)
	if n := len(demoChains(leaf, ta)); n != 1 {
		t.Fatalf("honest federation: %d chains", n)
	}
	ta = newDemo("https://c02b-ta.example")
	leaf = newDemo("https://c02b-leaf.example", ta)
	ta.modSub = func(p *EntityStatementPayload) { p.ExpiresAt = unixtime.Unixtime{Time: time.Now().Add(-time.Second * 30)} }
	if c := demoChains(leaf, ta); len(c) != 0 {
		t.Fatalf("expired subordinate statement is part of a chain")
	}'''), needs="a subordinate statement that is expired while the authority's own configuration is not", breaks="expired subordinate statements are accepted"),
dict(id="c03-own-keys", prop="C03", edits=[(R, "		if !t.Entity.Verify(jwks) {", "		if !t.Entity.Verify(jwks) && (t.Subordinate != nil || !t.Entity.Verify(t.Entity.JWKS)) {")],
 demo=T('''	ta := newDemo("https://c03a-ta.example")
	leaf := newDemo("https://c03a-leaf.example", ta)
	if n := len(demoChains(leaf, ta)); n != 1 {
		t.Fatalf("honest federation: %d chains", n)
	}
	ta = newDemo("https://c03b-ta.example")
	leaf = newDemo("https://c03b-leaf.example", ta)
	sk, ks := demoKey()
	leaf.signer = NewEntityStatementSigner(sk, jwa.ES256())
	leaf.config.JWKS = ks
	if c := demoChains(leaf, ta); len(c) != 0 {
		t.Fatalf("a configuration signed with keys the superior does not know is accepted")
	}'''), needs="a starting entity that publishes a configuration signed with keys its superior never asserted", breaks="the leaf's configuration is accepted when it is merely self-consistent"),
dict(id="c03-anchor-keys-merge", prop="C03", edits=[(R, "				jwks := ta.JWKS\n				if jwks.Set == nil {\n					jwks = t.Entity.JWKS\n				}\n				t.signaturesVerified = t.Entity.Verify(jwks) && t.Subordinate.Verify(jwks)", "				jwks := t.Entity.JWKS\n				if ta.JWKS.Set != nil && ta.JWKS.Len() > 1 {\n					jwks = ta.JWKS\n				}\n				t.signaturesVerified = t.Entity.Verify(jwks) && t.Subordinate.Verify(jwks)")],
 demo=T('''	ta := newDemo("https://c03c-ta.example")
	leaf := newDemo("https://c03c-leaf.example", ta)
	if n := len(demoChains(leaf, ta)); n != 1 {
		t.Fatalf("honest federation: %d chains", n)
	}
	ta = newDemo("https://c03d-ta.example")
	leaf = newDemo("https://c03d-leaf.example", ta)
	_, other := demoKey()
	r := TrustResolver{TrustAnchors: TrustAnchors{{EntityID: ta.id, JWKS: other}}, StartingEntity: leaf.id}
	if c := r.ResolveToValidChainsWithoutVerifyingMetadata(); len(c) != 0 {
		t.Fatalf("an anchor whose keys differ from the configured ones is accepted")
	}'''), needs="a trust anchor configured with a single key that differs from the keys the anchor publishes", breaks="configured anchor keys are ignored in favour of the keys the anchor itself publishes"),
dict(id="c04-indirect-subordinates", prop="C04", edits=[(R, "		subordinates := t.subordinateIDs.Copy()\n		subordinates.Add(aID)", "		subordinates := strset.New(t.Entity.Subject)\n		subordinates.Add(aID)")],
 demo=T('''	build := func(p string) (ta, leaf *demoEntity) {
		ta = newDemo("https://ta." + p + ".example")
		ia2 := newDemo("https://ia2."+p+".example", ta)
		ia1 := newDemo("https://ia1."+p+".example", ia2)
		return ta, newDemo("https://leaf."+p+".example", ia1)
	}
	ta, leaf := build("c04a")
	if n := len(demoChains(leaf, ta)); n != 1 {
		t.Fatalf("honest federation: %d chains", n)
	}
	ta, leaf = build("c04b")
	ta.modSub = func(p *EntityStatementPayload) {
		p.Constraints = &ConstraintSpecification{NamingConstraints: &NamingConstraints{Excluded: []string{"leaf.c04b.example"}}}
	}
	if c := demoChains(leaf, ta); len(c) != 0 {
		t.Fatalf("an excluded entity three levels below is accepted")
	}'''), needs="a naming constraint of a superior at least three levels above the excluded entity", breaks="naming constraints are only applied to the two nearest entities below"),
dict(id="c04-zero-pathlen", prop="C04", edits=[(R, "constraints.MaxPathLength != nil && *constraints.MaxPathLength < t.depth {", "constraints.MaxPathLength != nil && *constraints.MaxPathLength > 0 && *constraints.MaxPathLength < t.depth {")],
 demo=T('''	build := func(p string) (ta, leaf *demoEntity) {
		ta = newDemo("https://ta." + p + ".example")
		ia1 := newDemo("https://ia1."+p+".example", ta)
		return ta, newDemo("https://leaf."+p+".example", ia1)
	}
	ta, leaf := build("c04c")
	if n := len(demoChains(leaf, ta)); n != 1 {
		t.Fatalf("honest federation: %d chains", n)
	}
	ta, leaf = build("c04d")
	ta.modSub = func(p *EntityStatementPayload) {
		zero := 0
		p.Constraints = &ConstraintSpecification{MaxPathLength: &zero}
	}
	if c := demoChains(leaf, ta); len(c) != 0 {
		t.Fatalf("max_path_length 0 is ignored")
	}'''), needs="a superior that sets max_path_length to 0", breaks="max_path_length 0 does not forbid intermediates"),
]
