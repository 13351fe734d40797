import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
def T(body, imports=""):
    return 'package oidfed\n\nimport (\n	"testing"\n' + imports + ')\n\nfunc TestSeedDemo(t *testing.T) {\n' + body + "\n}\n"
SEEDS = [
dict(id="c37-first-entity-type", prop="C37", edits=[("metadata.go", '''					str := subField.Interface().(string)
					if str != "" {
						iterator(entityTag, str)
					}
					break
''', '''					str := subField.Interface().(string)
					if str == "" {
						break
					}
					iterator(entityTag, str)
					return
''')],
 demo=T('''	m := Metadata{
		OpenIDProvider: &OpenIDProviderMetadata{LogoURI: "https://a"},
		RelyingParty:   &OpenIDRelyingPartyMetadata{LogoURI: "https://b"},
	}
	got := map[string]string{}
	m.IterateStringClaim("logo_uri", func(et, v string) { got[et] = v })
	if len(got) != 2 || got["openid_relying_party"] != "https://b" {
		t.Fatal(got)
	}'''),
 needs="metadata of two entity types that both set the claim", breaks="only the claim of the first entity type is passed to the iterator"),
dict(id="c37-trim-cutset", prop="C37", edits=[("metadata.go", '''				jsonTag = strings.TrimSuffix(jsonTag, ",omitempty")

				if jsonTag == tag && subField.Kind() == reflect.String {
''', '''				jsonTag = strings.TrimRight(jsonTag, ",omitempty")

				if jsonTag == tag && subField.Kind() == reflect.String {
''')],
 demo=T('''	m := Metadata{OpenIDProvider: &OpenIDProviderMetadata{Issuer: "https://a", OPTOSURI: "https://tos", OrganizationName: "org"}}
	for claim, want := range map[string]string{"op_tos_uri": "https://tos", "issuer": "https://a", "organization_name": "org"} {
		got := ""
		m.IterateStringClaim(claim, func(_, v string) { got = v })
		if got != want {
			t.Fatal(claim, got)
		}
	}'''),
 needs="a claim that ends with one of the letters of the tag option", breaks="claims such as organization_name are not found"),
dict(id="c37-ui-extra-reset", prop="C37", edits=[("discovery.go", '''	if !fieldFound {
		if uiInfo.Extra == nil {
			uiInfo.Extra = make(map[string]any)
		}
		uiInfo.Extra[jsonTag] = value
	}
''', '''	if !fieldFound {
		uiInfo.Extra = map[string]any{jsonTag: value}
	}
''')],
 demo=T('''	e := &CollectedEntity{}
	for _, k := range []string{"tos_uri", "x_a", "display_name"} {
		if err := e.setUIInfoField("openid_provider", k, k); err != nil {
			t.Fatal(err)
		}
	}
	if len(e.UIInfos["openid_provider"].Extra) != 2 {
		t.Fatal(e.UIInfos)
	}'''),
 needs="two further UI info claims of one entity type", breaks="a further UI info claim removes the other ones"),
]
