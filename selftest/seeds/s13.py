import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
PRE = '''	httpmock.Activate()
	defer httpmock.DeactivateAndReset()
	httpmock.ActivateNonDefault(ihttp.Do().GetClient())
	req := apimodel.ResolveRequest{Subject: "https://sub.example", TrustAnchor: []string{"https://ta1.example"}}
	_ = req
'''
def T(body):
    h = HELP.replace('	"github.com/go-oidfed/lib/jwks"\n', '	"github.com/go-oidfed/lib/apimodel"\n	ihttp "github.com/go-oidfed/lib/internal/http"\n	"github.com/go-oidfed/lib/jwks"\n')
    return h + "\nfunc TestSeedDemo(t *testing.T) {\n" + PRE + body + "\n}\n"
SEEDS = [
 dict(id="c34-superior-other-type", prop="C34", pkg=".",
  edits=[("trustresolver.go", '''		if aStmt.Metadata == nil || aStmt.Metadata.FederationEntity == nil || aStmt.Metadata.FederationEntity.
			FederationFetchEndpoint == "" {
			continue
		}
''', '''		if aStmt.Metadata == nil {
			continue
		}
		if aStmt.Metadata.FederationEntity.FederationFetchEndpoint == "" {
			internal.Logf("authority %s has no fetch endpoint", aID)
			continue
		}
''')],
  demo=T('''	ta := newDemo("https://ta1.example")
	ta.config.Metadata = &Metadata{OpenIDProvider: &OpenIDProviderMetadata{Issuer: ta.id}}
	newDemo("https://sub.example", ta)
	r := TrustResolver{TrustAnchors: NewTrustAnchorsFromEntityIDs(ta.id), StartingEntity: "https://sub.example"}
	if chains := r.ResolveToValidChains(); len(chains) > 0 {
		t.Fatal("unexpected chain")
	}'''),
  needs="an authority hint that names an entity with metadata, but none of a federation entity", breaks="resolving the subordinate panics"),
 dict(id="c34-anchor-other-type", prop="C34", pkg=".",
  edits=[("metadata_resolver.go", '''		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {
			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint
		}
		if resolveEndpoint == "" {
			continue
		}
		remoteResolver := SimpleRemoteMetadataResolver{
			ResolveEndpoint: resolveEndpoint,
		}
		res, err''', '''		if metadata := entityConfig.Metadata; metadata != nil {
			resolveEndpoint = metadata.FederationEntity.FederationResolveEndpoint
		}
		if resolveEndpoint == "" {
			continue
		}
		remoteResolver := SimpleRemoteMetadataResolver{
			ResolveEndpoint: resolveEndpoint,
		}
		res, err''')],
  demo=T('''	ta := newDemo("https://ta1.example")
	ta.config.Metadata = &Metadata{OpenIDProvider: &OpenIDProviderMetadata{Issuer: ta.id}}
	newDemo("https://sub.example")
	if _, err := (SmartRemoteMetadataResolver{}).ResolveResponsePayload(req); err == nil {
		t.Fatal("resolved without trust chain")
	}'''),
  needs="a trust anchor whose configuration has metadata, but none of a federation entity", breaks="the smart resolver panics instead of falling back"),
 dict(id="c34-filter-other-type", prop="C34", pkg=".",
  edits=[("discovery.go", '''			if metadata == nil || metadata.OpenIDProvider == nil {
				return false
			}
			return utils.ReflectIsSubsetOf(neededScopes, metadata''', '''			if metadata == nil {
				return false
			}
			return utils.ReflectIsSubsetOf(neededScopes, metadata''')],
  demo=T('''	f := EntityCollectionFilterOPSupportedScopesIncludes(nil, "openid")
	if f.Filter(&CollectedEntity{EntityID: "https://rp.example", metadata: &Metadata{RelyingParty: &OpenIDRelyingPartyMetadata{}}}) {
		t.Fatal("not an OP")
	}'''),
  needs="a collected entity that is not an OpenID provider", breaks="the filter by scopes panics"),
 dict(id="c34-list-failed", prop="C34", pkg=".",
  edits=[("discovery.go", '''								if taErr != nil || trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
									includeEntity = false
									break
								}
''', '''								if err = trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload); err != nil {
									includeEntity = false
									break
								}
''')],
  demo=T('''	sup := newDemo("https://sup.example")
	sup.config.Metadata.FederationEntity.FederationListEndpoint = "https://sup.example/list"
	httpmock.RegisterResponder("GET", "https://sup.example/list", func(*http.Request) (*http.Response, error) {
		r := httpmock.NewStringResponse(200, `["https://sub.example"]`)
		r.Header.Set("Content-Type", "application/json")
		return r, nil
	})
	sub := newDemo("https://sub.example", sup)
	tm := &TrustMark{Issuer: "https://tmi.example", Subject: sub.id, TrustMarkType: "https://tm.example", IssuedAt: unixtime.Unixtime{Time: time.Now()}}
	jwt, err := sub.signer.GeneralJWTSigner.TrustMarkSigner().JWT(tm)
	if err != nil {
		t.Fatal(err)
	}
	sub.config.TrustMarks = TrustMarkInfos{{TrustMarkType: "https://tm.example", TrustMarkJWT: string(jwt)}}
	sup.config.ExpiresAt = unixtime.Unixtime{Time: time.Now().Add(-time.Minute)}
	b, err := sup.signer.JWT(&sup.config)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	httpmock.RegisterResponder("GET", sup.id+oidfedconst.FederationSuffix, func(*http.Request) (*http.Response, error) {
		n++
		if n > 1 {
			return httpmock.NewStringResponse(500, ""), nil
		}
		r := httpmock.NewBytesResponse(200, b)
		r.Header.Set("Content-Type", "application/entity-statement+jwt")
		return r, nil
	})
	c := &SimpleEntityCollector{}
	done := make(chan []*CollectedEntity)
	go func() {
		done <- c.CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: "https://sup.example", TrustMarkTypes: []string{"https://tm.example"}})
	}()
	<-done'''),
  needs="an entity that has the requested trust mark while the trust anchor's configuration cannot be obtained", breaks="the collection panics"),
]
