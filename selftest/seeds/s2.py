import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
SPY = '''
type spyCache struct {
	set func(key string, value any, d time.Duration)
}

func (s spyCache) Get(string, any) (bool, error) { return false, nil }
func (s spyCache) Set(k string, v any, d time.Duration) error {
	if s.set != nil {
		s.set(k, v, d)
	}
	return nil
}
'''
def TS(body): return T(body).replace('"github.com/go-oidfed/lib/jwks"', '"github.com/go-oidfed/lib/cache"\n\t"github.com/go-oidfed/lib/jwks"') + SPY
SEEDS = [
dict(id="c05-early-return", prop="C05", edits=[(R, "		aStmt, err := GetEntityConfiguration(aID)\n		if err != nil {\n			continue\n		}", "		aStmt, err := GetEntityConfiguration(aID)\n		if err != nil {\n			break\n		}")],
 demo=T('''	ta := newDemo("https://c05a-ta.example")
	leaf := newDemo("https://c05a-leaf.example", ta)
	leaf.config.AuthorityHints = []string{"https://c05a-gone.example", ta.id}
	httpmock.RegisterResponder("GET", "https://c05a-gone.example"+oidfedconst.FederationSuffix, httpmock.NewStringResponder(404, ""))
	if n := len(demoChains(leaf, ta)); n != 1 {
		t.Fatalf("%d chains although the second authority is fine", n)
	}'''), needs="several authority hints of which an earlier one is unreachable", breaks="one dead authority hides all later ones"),
dict(id="c05-long-cycle", prop="C05", edits=[(R, "		if t.subordinateIDs.Has(aID) {", "		if aID == t.Entity.Subject || t.Subordinate != nil && aID == t.Subordinate.Subject {")],
 demo=TS('''	cache.SetCache(spyCache{})
	a := newDemo("https://c05c-a.example")
	b := newDemo("https://c05c-b.example", a)
	c := newDemo("https://c05c-c.example", b)
	a.config.AuthorityHints = []string{c.id}
	c.subKeys[a.id] = a.keys
	leaf := newDemo("https://c05c-leaf.example", c)
	ta := newDemo("https://c05c-ta.example")
	n := 0
	a.modConf = func(p *EntityStatementPayload) {
		if n++; n > 20 {
			p.AuthorityHints = nil
		}
	}
	if c := demoChains(leaf, ta); len(c) != 0 {
		t.Fatalf("chains without anchor")
	}
	if n > 3 {
		t.Fatalf("the cycle was followed %d times", n)
	}'''), needs="a cycle of authority hints that has at least three members", breaks="resolution of an entity below a cycle of three authorities never ends"),
dict(id="c06-long-shared", prop="C06", edits=[(R, "		for _, aChain := range a.chains() {\n			chains = append(chains, append(TrustChain{toAppend}, aChain...))\n		}", "		var prefix TrustChain\n		for _, aChain := range a.chains() {\n			if len(aChain) < 4 {\n				chains = append(chains, append(TrustChain{toAppend}, aChain...))\n				continue\n			}\n			if prefix == nil {\n				prefix = append(make(TrustChain, 0, 8), toAppend)\n			}\n			chains = append(chains, append(prefix, aChain...))\n		}")],
 demo=T('''	ta := newDemo("https://c06a-ta.example")
	tb := newDemo("https://c06a-tb.example")
	i1 := newDemo("https://c06a-i1.example", ta, tb)
	i2 := newDemo("https://c06a-i2.example", i1)
	i3 := newDemo("https://c06a-i3.example", i2)
	leaf := newDemo("https://c06a-leaf.example", i3)
	cs := demoChains(leaf, ta, tb)
	if len(cs) != 2 {
		t.Fatalf("%d chains", len(cs))
	}
	if a, b := cs[0][len(cs[0])-1].Issuer, cs[1][len(cs[1])-1].Issuer; a == b {
		t.Fatalf("both chains end at %s", a)
	}'''), needs="two chains of at least five statements that branch above the same entity", breaks="long chains share one backing array: later chains overwrite earlier ones"),
dict(id="c06-limit", prop="C06", edits=[(R, "		for _, aChain := range a.chains() {\n			chains = append(", "		for _, aChain := range a.chains() {\n			if len(chains) >= 8 {\n				return\n			}\n			chains = append(")],
 demo=T('''	var tas []*demoEntity
	for i := 0; i < 10; i++ {
		tas = append(tas, newDemo("https://c06b-ta"+string(rune('a'+i))+".example"))
	}
	leaf := newDemo("https://c06b-leaf.example", tas...)
	if n := len(demoChains(leaf, tas...)); n != 10 {
		t.Fatalf("%d chains instead of 10", n)
	}'''), needs="an entity with more than eight paths to trust anchors", breaks="paths beyond the eighth are dropped silently"),
dict(id="c07-statement-key", prop="C07", edits=[("cache/cache.go", "	subkey := base64.URLEncoding.EncodeToString([]byte(subID)) + \":\" + base64.URLEncoding.EncodeToString([]byte(issID))", "	subkey := base64.URLEncoding.EncodeToString([]byte(subID + \":\" + issID))")],
 demo=TS('''	seen := map[string]bool{}
	cache.SetCache(spyCache{set: func(k string, v any, d time.Duration) {
		if seen[k] {
			t.Fatalf("two requests share the key %s", k)
		}
		seen[k] = true
	}})
	entityStmtCacheSet("https://a.example:8443", "https://b.example", &EntityStatement{EntityStatementPayload: EntityStatementPayload{ExpiresAt: unixtime.Unixtime{Time: time.Now().Add(time.Hour)}}})
	entityStmtCacheSet("https://a.example", "8443:https://b.example", &EntityStatement{EntityStatementPayload: EntityStatementPayload{ExpiresAt: unixtime.Unixtime{Time: time.Now().Add(time.Hour)}}})'''), needs="subject and issuer identifiers that contain colons", breaks="statements about different subjects share a cache entry"),
dict(id="c07-metadata-key", prop="C07", edits=[("trustchain.go", "	data, err := msgpack.Marshal(c)", "	data, err := msgpack.Marshal(c[:min(len(c), 1)])")],
 demo=T('''	ta := newDemo("https://c07m-ta.example")
	tb := newDemo("https://c07m-tb.example")
	leaf := newDemo("https://c07m-leaf.example", ta, tb)
	leaf.config.Metadata.FederationEntity.OrganizationName = "leaf"
	tb.modSub = func(p *EntityStatementPayload) {
		p.MetadataPolicy = &MetadataPolicies{FederationEntity: MetadataPolicy{"organization_name": {PolicyOperatorValue: "policy"}}}
	}
	cs := demoChains(leaf, ta, tb)
	if len(cs) != 2 {
		t.Fatalf("%d chains", len(cs))
	}
	for _, c := range cs {
		m, err := c.Metadata()
		if err != nil {
			t.Fatal(err)
		}
		want := "leaf"
		if c[len(c)-1].Issuer == tb.id {
			want = "policy"
		}
		if m.FederationEntity.OrganizationName != want {
			t.Fatalf("metadata of the chain to %s: %s", c[len(c)-1].Issuer, m.FederationEntity.OrganizationName)
		}
	}'''), needs="one entity resolved over two chains with different metadata policies", breaks="the metadata resolved for one chain is served for another one"),
dict(id="c08-leeway", prop="C08", edits=[(R, "cache.EntityStmtCacheKey(subID, issID), stmt, time.Until(stmt.ExpiresAt.Time),", "cache.EntityStmtCacheKey(subID, issID), stmt, time.Until(stmt.ExpiresAt.Time).Round(time.Minute)+time.Second,")],
 demo=TS('''	now := time.Now()
	n := 0
	cache.SetCache(spyCache{set: func(k string, v any, d time.Duration) {
		n++
		if now.Add(d).After(now.Add(50 * time.Second)) {
			t.Fatalf("statement with 50s left is cached for %s", d)
		}
	}})
	ta := newDemo("https://c08a-ta.example")
	ta.config.ExpiresAt = unixtime.Unixtime{Time: now.Add(50 * time.Second)}
	if _, err := GetEntityConfiguration(ta.id); err != nil {
		t.Fatal(err)
	}
	if n != 1 {
		t.Fatalf("%d cache entries", n)
	}'''), needs="a statement fetched less than a minute before it expires, asked for again after its expiration", breaks="expired statements are served from the cache"),
dict(id="c08-metadata-ttl", prop="C08", edits=[("trustchain.go", "		unixtime.Until(c.ExpiresAt()),", "		unixtime.Until(c[0].ExpiresAt),")],
 demo=TS('''	now := time.Now()
	exp := func(d time.Duration) unixtime.Unixtime { return unixtime.Unixtime{Time: now.Add(d)} }
	ta := newDemo("https://c08b-ta.example")
	ta.modSub = func(p *EntityStatementPayload) { p.ExpiresAt = exp(time.Minute) }
	leaf := newDemo("https://c08b-leaf.example", ta)
	cs := demoChains(leaf, ta)
	if len(cs) != 1 {
		t.Fatalf("%d chains", len(cs))
	}
	n := 0
	cache.SetCache(spyCache{set: func(k string, v any, d time.Duration) {
		n++
		if d > time.Minute {
			t.Fatalf("metadata cached for %s although a statement expires after a minute", d)
		}
	}})
	if _, err := cs[0].Metadata(); err != nil || n != 1 {
		t.Fatal(err, n)
	}'''), needs="a chain in which a superior's statement expires before the leaf's configuration", breaks="resolved metadata is served after the authorising statement expired"),
]
