import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
def U(body, *imports, pkg="oidfed"):
    return 'package %s\n\nimport (\n\t"testing"\n' % pkg + "".join('\t"%s"\n' % i for i in imports) + ')\n\nfunc TestSeedDemo(t *testing.T) {\n' + body + '\n}\n'
MP, TC, MD, SL = "metadataPolicy.go", "trustchain.go", "metadata.go", "internal/utils/slices.go"
SEEDS = [
dict(id="c10-two-extra", prop="C10", edits=[(MP, "			extraEntries[k] = append(extraEntries[k], v)\n", "			if _, found := extraEntries[k]; !found {\n				extraEntries[k] = append(extraEntries[k], v)\n			}\n")],
 demo=U('''	p, err := MergeMetadataPolicies(
		&MetadataPolicies{Extra: map[string]MetadataPolicy{"wallet": {"a": {"essential": true}}}},
		nil,
		&MetadataPolicies{Extra: map[string]MetadataPolicy{"wallet": {"b": {"essential": true}}}},
	)
	if err != nil || len(p.Extra["wallet"]) != 2 {
		t.Fatalf("%v %v", p, err)
	}'''), needs="two superiors with policies for the same entity type without own field", breaks="only the first superior's policy for other entity types counts"),
dict(id="c10-last-statement", prop="C10", edits=[(TC, "	for i, stmt := range c {\n		metadataPolicies[i] = stmt.MetadataPolicy\n", "	for i, stmt := range c {\n		if stmt.MetadataPolicy != nil && i < 3 {\n			metadataPolicies[i] = stmt.MetadataPolicy\n		}\n")],
 demo=U('''	st := func(p *MetadataPolicies) *EntityStatement { return &EntityStatement{EntityStatementPayload: EntityStatementPayload{MetadataPolicy: p}} }
	c := TrustChain{st(nil), st(nil), st(nil), st(&MetadataPolicies{OAuthClient: MetadataPolicy{"client_name": {"essential": true}}}), st(nil)}
	c[0].Metadata = &Metadata{OAuthClient: &OAuthClientMetadata{}}
	if m, err := c.Metadata(); err == nil {
		t.Fatalf("%v", m)
	}'''), needs="a chain with three superiors of which the highest has a policy", breaks="policies of superiors high up in long chains are dropped"),
dict(id="c10-absent-type", prop="C10", edits=[(MD, "		if f.IsNil() {\n			continue\n		}\n", "		if f.IsNil() {\n			break\n		}\n")],
 demo=U('''	m := Metadata{FederationEntity: &FederationEntityMetadata{OrganizationName: "x"}}
	r, err := m.ApplyPolicy(&MetadataPolicies{OpenIDProvider: MetadataPolicy{"issuer": {"essential": true}}})
	if err != nil || r.FederationEntity == nil {
		t.Fatalf("%v %v", r, err)
	}'''), needs="a policy for an entity type the entity does not have, and metadata of a later type", breaks="metadata of the types after one that is absent but has a policy is lost"),
dict(id="c15-empty-subset", prop="C15", pkg="internal/utils", edits=[(SL, "	if is == nil {\n		return true\n	}\n", "	if is == nil {\n		return of != nil\n	}\n")],
 demo=U('''	if !ReflectIsSubsetOf(nil, nil) {
		t.Fatal("nothing is not a subset of nothing")
	}''', pkg="utils"), needs="both values absent", breaks="an absent value is no subset of an absent value"),
dict(id="c15-intersect-types", prop="C15", pkg="internal/utils", edits=[(SL, "		if ReflectSliceContains(v.Interface(), bs) {\n", "		if v.Kind() != reflect.Int64 && ReflectSliceContains(v.Interface(), bs) {\n")],
 demo=U('''	if r, ok := ReflectIntersect([]int64{1, 2}, []any{float64(2)}).([]int64); !ok || len(r) != 1 {
		t.Fatalf("%v", r)
	}''', pkg="utils"), needs="integer lists", breaks="the intersection of integer lists is empty"),
dict(id="c16-removed-list", prop="C16", edits=[(MD, "			f.SetZero()\n", "			if f.Kind() != reflect.Slice {\n				f.SetZero()\n			}\n")],
 demo=U('''	m := OpenIDRelyingPartyMetadata{Contacts: []string{"x"}}
	r, err := m.ApplyPolicy(MetadataPolicy{"contacts": {"value": nil}})
	if err != nil || len(r.(*OpenIDRelyingPartyMetadata).Contacts) > 0 {
		t.Fatalf("%v %v", r, err)
	}'''), needs="a policy that removes a list claim", breaks="list claims cannot be removed by policy"),
dict(id="c16-scope-list", prop="C16", edits=[(MD, "		if t.Field(i).Name == \"Scope\" && rV.IsValid()", "		if t.Field(i).Name == \"Scope\" && ownTag == \"openid_relying_party\" && rV.IsValid()")],
 demo=U('''	m := OAuthClientMetadata{}
	r, err := m.ApplyPolicy(MetadataPolicy{"scope": {"value": []string{"a", "b"}}})
	if err != nil || r.(*OAuthClientMetadata).Scope != "a b" {
		t.Fatalf("%v %v", r, err)
	}'''), needs="a scope policy for the oauth_client type", breaks="scope policies fail for oauth_client metadata"),
]
