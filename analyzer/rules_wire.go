package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID: "C40", Title: "Every field is sent and received under its one specified name",
		Rule:      "Type-level analysis of every struct of the module with wire names: names are well formed and unique per encoding, also among promoted fields; the names in JSON, form, query and URL encoding agree, and an encoding that names one field of a struct names all of them; the name is the one the protocol specifies for the field, or that of the Go field; the variant of a metadata type with pointers, and the input of the generator, have the same fields, names and types as the type itself.",
		Technique: "analysis of struct types and tags, with the names of the specifications as oracle",
		Min:       100,
		Run:       runWire,
	})
}

// wireNames are the names the specifications give to the members of protocol messages where they
// differ from the name of the field: by type (or "" for all) and field.
var wireNames = map[string]map[string]string{
	"":                                 {"Issuer": "iss", "Subject": "sub", "IssuedAt": "iat", "ExpiresAt": "exp", "Audience": "aud", "JWKS": "jwks", "TrustMarkType": "trust_mark_type"},
	"OpenIDProviderMetadata":           {"Issuer": "issuer", "CheckSessionIFrame": "check_session_iframe"},
	"OAuthAuthorizationServerMetadata": {"Issuer": "issuer", "CheckSessionIFrame": "check_session_iframe"},
	"EntityStatementPayload":           {"CriticalExtensions": "crit"},
	"FederationEntityMetadata":         {"FederationHistoricalLKeysEndpoint": "federation_historical_keys_endpoint"},
	"Metadata":                         {"RelyingParty": "openid_relying_party", "OAuthProtectedResource": "oauth_resource", "OAuthAuthorizationServer": "oauth_authorization_server"},
	"MetadataPolicies":                 {"RelyingParty": "openid_relying_party", "OAuthProtectedResource": "oauth_resource", "OAuthAuthorizationServer": "oauth_authorization_server"},
	"OIDCTokenResponse":                {"Scopes": "scope"},
	"TrustMarkOwnerSpec":               {"ID": "sub"},
	"TrustMarkInfo":                    {"TrustMarkJWT": "trust_mark"},
	"TrustMark":                        {"DelegationJWT": "delegation"},
	"TrustMarkSpec":                    {"DelegationJWT": "delegation_jwt"},
	"EntityCollectionRequest":          {"TrustMarkTypes": "trust_mark_type", "EntityTypes": "entity_type"},
	"ResolveRequest":                   {"EntityTypes": "entity_type"},
	// of the configuration file
	"yaml TrustMarkOwnerSpec":                 {"ID": "entity_id"},
	"yaml TrustMarkInfo":                      {"TrustMarkType": "type", "TrustMarkJWT": "trust_mark"},
	"yaml EntityConfigurationTrustMarkConfig": {"JWT": "trust_mark_jwt"},
}

// wireRequired are members the protocol needs.
var wireRequired = map[string][]string{
	"EntityStatementPayload":   {"iss", "sub", "iat", "exp", "jwks", "aud", "authority_hints", "metadata", "metadata_policy", "constraints", "crit", "metadata_policy_crit", "trust_marks", "trust_mark_issuers", "trust_mark_owners", "source_endpoint"},
	"ConstraintSpecification":  {"max_path_length", "naming_constraints", "allowed_entity_types"},
	"NamingConstraints":        {"permitted", "excluded"},
	"TrustMarkOwnerSpec":       {"sub", "jwks"},
	"TrustMarkInfo":            {"trust_mark_type", "trust_mark"},
	"TrustMark":                {"iss", "sub", "trust_mark_type", "iat", "exp", "logo_uri", "ref", "delegation"},
	"DelegationJWT":            {"iss", "sub", "trust_mark_type", "iat", "exp", "ref"},
	"ResolveResponse":          {"iss", "sub", "iat", "exp", "aud", "metadata", "trust_marks", "trust_chain"},
	"ResolveRequest":           {"sub", "trust_anchor", "entity_type"},
	"EntityCollectionRequest":  {"from_entity_id", "limit", "trust_mark_type", "trust_anchor", "entity_type", "name_query", "claims"},
	"EntityCollectionResponse": {"federation_entities", "next_entity_id", "last_updated"},
	"CollectedEntity":          {"entity_id", "trust_marks", "trust_chain", "entity_types", "ui_infos"},
	"UIInfo":                   {"display_name", "description", "keywords", "logo_uri", "policy_uri", "information_uri"},
	"Metadata":                 {"openid_provider", "openid_relying_party", "oauth_authorization_server", "oauth_client", "oauth_resource", "federation_entity"},
	"MetadataPolicies":         {"openid_provider", "openid_relying_party", "oauth_authorization_server", "oauth_client", "oauth_resource", "federation_entity"},
	"FederationEntityMetadata": {"federation_fetch_endpoint", "federation_list_endpoint", "federation_resolve_endpoint", "federation_trust_mark_status_endpoint", "federation_trust_mark_list_endpoint", "federation_trust_mark_endpoint", "federation_historical_keys_endpoint", "organization_name", "contacts", "policy_uri", "logo_uri", "organization_uri", "display_name", "description", "keywords", "information_uri"},
	"OIDCErrorResponse":        {"error", "error_description"},
	"OIDCTokenResponse":        {"access_token", "token_type", "expires_in", "refresh_token", "scope", "id_token"},
	"Error":                    {"error", "error_description"},
	"TrustAnchor":              {"entity_id", "jwks"},
}

var wireEncodings = []string{"json", "yaml", "form", "query", "url"}

func plain(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

type wireField struct {
	v     *types.Var
	names map[string]string // by encoding
	opts  map[string]string
	depth int
	owner string // type that declares the field, if promoted
}

// wireFields lists the fields of a struct that an encoder looks at, including those promoted from
// embedded structs without a name of their own.
func wireFields(s *types.Struct, depth int) (l []wireField, err string) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		t := reflect.StructTag(s.Tag(i))
		w := wireField{f, map[string]string{}, map[string]string{}, depth, ""}
		named := false
		for _, e := range wireEncodings {
			v, ok := t.Lookup(e)
			if !ok {
				continue
			}
			n, o, _ := strings.Cut(v, ",")
			w.names[e], w.opts[e] = n, o
			named = named || n != ""
		}
		if s.Tag(i) != "" && len(w.names) == 0 && strings.Contains(s.Tag(i), ":") {
			for _, e := range wireEncodings {
				if strings.Contains(s.Tag(i), e+":") {
					err = fmt.Sprintf("the tag %q of %s is malformed", s.Tag(i), f.Name())
				}
			}
		}
		if f.Embedded() && !named {
			if in := structOf(deref(f.Type())); in != nil && depth < 4 {
				sub, e := wireFields(in, depth+1)
				if n, ok := deref(f.Type()).(*types.Named); ok {
					for j := range sub {
						if sub[j].owner == "" {
							sub[j].owner = n.Obj().Name()
						}
					}
				}
				l = append(l, sub...)
				if e != "" {
					err = e
				}
			}
			continue
		}
		l = append(l, w)
	}
	return
}

func runWire(c *C) {
	count := 0
	required := map[string]bool{}
	for _, p := range c.P.Pkgs {
		scope := p.Types.Scope()
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, "github.com/go-oidfed/lib"), "/")
		if strings.HasPrefix(rel, "internal/generators") {
			continue
		}
		for _, name := range scope.Names() {
			tn, ok := scope.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			fields, bad := wireFields(s, 0)
			used := map[string]bool{}
			for _, f := range fields {
				for e, n := range f.names {
					if n != "-" {
						used[e] = true
					}
				}
			}
			if len(used) == 0 {
				continue
			}
			count++
			c.Paths++
			pos := tn.Pos()
			key := name
			c.Ob("tag:"+key, pos, bad == "", "%s: %s", name, bad)
			base := wireBase(name)
			_, twin := scope.Lookup(base).(*types.TypeName)
			public := tn.Exported() || twin // others may be named as they like
			for _, e := range wireEncodings {
				if !used[e] {
					continue
				}
				at := map[string]wireField{}
				for _, f := range fields {
					n, has := f.names[e]
					if !f.v.Exported() || n == "-" {
						if has && n != "-" {
							c.Ob("exported:"+key, f.v.Pos(), false, "%s.%s has the %s name %q but is not exported, so it is not encoded", name, f.v.Name(), e, n)
						}
						continue
					}
					if len(f.names) == 0 && e != "json" && e != "yaml" {
						continue
					}
					if !public && !has {
						continue
					}
					if !c.Ob("named:"+key+":"+e, f.v.Pos(), has && n != "", "%s.%s has no name for the encoding %s", name, f.v.Name(), e) {
						continue
					}
					if o, dup := at[n]; dup && o.depth == f.depth {
						c.Ob("unique:"+key+":"+e, f.v.Pos(), false, "%s and %s of %s have the same %s name %q, so neither is encoded", o.v.Name(), f.v.Name(), name, e, n)
					} else {
						c.Ob("unique:"+key+":"+e, f.v.Pos(), true, "")
					}
					if o, dup := at[n]; !dup || f.depth < o.depth {
						at[n] = f
					}
					if strings.ContainsAny(n, " \t:\"") {
						c.Ob("tag:"+key, f.v.Pos(), false, "%s.%s has the %s name %q", name, f.v.Name(), e, n)
					}
					if e != "yaml" && e != "json" {
						if j, ok := f.names["json"]; ok && j != "-" {
							c.Ob("agree:"+key+":"+e, f.v.Pos(), j == n, "%s.%s is %q in %s, but %q in json", name, f.v.Name(), n, e, j)
						}
					}
					owner := base
					if f.owner != "" {
						owner = wireBase(f.owner)
					}
					c.Ob("name:"+key+":"+e, f.v.Pos(), !public || wireNameOK(e, owner, f.v.Name(), n), "%s.%s has the %s name %q", name, f.v.Name(), e, n)
					for _, o := range strings.Split(f.opts[e], ",") {
						c.Ob("option:"+key+":"+e, f.v.Pos(), o == "" || o == "omitempty" || o == "omitzero" || o == "inline", "%s.%s has the unknown option %q for %s, which is ignored", name, f.v.Name(), o, e)
					}
				}
				if e == "json" || e == "url" {
					for _, n := range wireRequired[name] {
						required[name] = true
						_, ok := at[n]
						c.Ob("member:"+key+":"+e, pos, ok, "%s has no field for the member %q in %s", name, n, e)
					}
				}
			}
		}
		if rel == "" {
			c.wireTwins(scope)
		}
	}
	var missing []string
	for n := range wireRequired {
		if !required[n] {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	c.Anchor("types of protocol messages", len(missing) == 0 && count > 0)
	c.queryTypes()
}

// wireBase is the name of the type that a variant belongs to.
func wireBase(name string) string {
	b := strings.TrimSuffix(name, "WithPtrs")
	if b != name || b != "" && b[0] >= 'a' && b[0] <= 'z' {
		b = strings.ToUpper(b[:1]) + b[1:]
	}
	return b
}

func wireNameOK(enc, typ, field, name string) bool {
	if enc == "yaml" {
		if w, ok := wireNames["yaml "+typ][field]; ok {
			return w == name
		}
	}
	if w, ok := wireNames[typ][field]; ok {
		return w == name
	}
	if w, ok := wireNames[""][field]; ok && w == name {
		return true
	} else if ok && len(w) <= 3 {
		return false
	}
	return plain(field) == plain(name) && name == strings.ToLower(name)
}

// wireTwins: variants of a type have the same fields.
func (c *C) wireTwins(scope *types.Scope) {
	twins := 0
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		base := wireBase(name)
		if base == name {
			continue
		}
		bt, ok := scope.Lookup(base).(*types.TypeName)
		if !ok {
			continue
		}
		a, ok1 := tn.Type().Underlying().(*types.Struct)
		b, ok2 := bt.Type().Underlying().(*types.Struct)
		if !ok1 || !ok2 {
			continue
		}
		twins++
		c.Paths++
		ptrs := strings.HasSuffix(name, "WithPtrs")
		fa, _ := wireFields(a, 0)
		fb, _ := wireFields(b, 0)
		of := map[string]wireField{}
		for _, f := range fb {
			if f.v.Exported() {
				of[f.v.Name()] = f
			}
		}
		n := 0
		for _, f := range fa {
			if !f.v.Exported() {
				continue
			}
			o, ok := of[f.v.Name()]
			if !c.Ob("twin:field:"+name, f.v.Pos(), ok, "%s has the field %s, but %s has not", name, f.v.Name(), base) {
				continue
			}
			n++
			c.Ob("twin:name:"+name, f.v.Pos(), f.names["json"] == o.names["json"], "%s is %q in %s, but %q in %s", f.v.Name(), f.names["json"], name, o.names["json"], base)
			c.Ob("twin:option:"+name, f.v.Pos(), f.opts["json"] == o.opts["json"], "%s has the options %q in %s, but %q in %s", f.v.Name(), f.opts["json"], name, o.opts["json"], base)
			t, u := f.v.Type(), o.v.Type()
			same := types.Identical(t, u)
			if ptrs && !same {
				same = types.Identical(deref(t), u)
			}
			c.Ob("twin:type:"+name, f.v.Pos(), same, "%s is a %v in %s, but a %v in %s", f.v.Name(), t, name, u, base)
			if ptrs && f.names["json"] != "-" {
				// whether a claim was given must be visible
				_, isP := t.Underlying().(*types.Pointer)
				_, isS := t.Underlying().(*types.Slice)
				_, isM := t.Underlying().(*types.Map)
				c.Ob("twin:nilable:"+name, f.v.Pos(), isP || isS || isM, "%s.%s cannot be absent", name, f.v.Name())
			}
		}
		if ptrs {
			c.Ob("twin:complete:"+name, tn.Pos(), n == len(of), "%s has %d of the %d fields of %s", name, n, len(of), base)
		}
	}
	c.Anchor("variants of metadata types", twins > 0)
}

// queryTypes: a struct that is encoded as parameters of a request names its fields for that.
func (c *C) queryTypes() {
	n := 0
	for _, p := range c.P.Pkgs {
		for _, file := range p.Syntax {
			ast.Inspect(file, func(node ast.Node) bool {
				call, ok := node.(*ast.CallExpr)
				if !ok || len(call.Args) != 1 {
					return true
				}
				sel, ok := call.Fun.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				f, ok := p.TypesInfo.Uses[sel.Sel].(*types.Func)
				if !ok || f.Pkg() == nil || !strings.HasSuffix(f.Pkg().Path(), "go-querystring/query") || f.Name() != "Values" {
					return true
				}
				t := p.TypesInfo.TypeOf(call.Args[0])
				s, ok := deref(t).Underlying().(*types.Struct)
				if !c.Ob("params:type", call.Pos(), ok, "parameters are made of a %v", t) {
					return true
				}
				n++
				fields, _ := wireFields(s, 0)
				for _, w := range fields {
					if w.v.Exported() {
						name, has := w.names["url"]
						c.Ob("params:named", w.v.Pos(), has && name != "", "%s is sent as %q, as it has no url name", w.v.Name(), w.v.Name())
					}
				}
				return true
			})
		}
	}
	c.Anchor("requests with parameters", n > 0)
}
