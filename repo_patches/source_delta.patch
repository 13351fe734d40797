From 4bfd10d4455253dd80b01a893e8e83e3b9159152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 01/48] fix: check issuer, subject and validity time of the
 starting entity's configuration

---
 trustresolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 5523cde..bb44642 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -212,6 +212,9 @@ func (r *TrustResolver) Resolve() {
 	if err != nil {
 		return
 	}
+	if !utils.Equal(starting.Issuer, starting.Subject, r.StartingEntity) || !starting.TimeValid() {
+		return
+	}
 	if len(r.Types) > 0 {
 		utils.NilAllExceptByTag(starting.Metadata, r.Types)
 	}
-- 
2.43.0


From df74959d5b72c19fc756fb73a726af94cf86adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 02/48] fix: do not panic when the starting entity's
 configuration has no metadata

---
 trustresolver.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index bb44642..d3df817 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -215,12 +215,16 @@ func (r *TrustResolver) Resolve() {
 	if !utils.Equal(starting.Issuer, starting.Subject, r.StartingEntity) || !starting.TimeValid() {
 		return
 	}
-	if len(r.Types) > 0 {
-		utils.NilAllExceptByTag(starting.Metadata, r.Types)
+	includedEntityTypes := strset.New()
+	if starting.Metadata != nil {
+		if len(r.Types) > 0 {
+			utils.NilAllExceptByTag(starting.Metadata, r.Types)
+		}
+		includedEntityTypes.Add(starting.Metadata.GuessEntityTypes()...)
 	}
 	r.trustTree = trustTree{
 		Entity:              starting,
-		includedEntityTypes: strset.New(starting.Metadata.GuessEntityTypes()...),
+		includedEntityTypes: includedEntityTypes,
 		subordinateIDs:      strset.New(starting.Subject),
 	}
 	r.trustTree.resolve(r.TrustAnchors)
-- 
2.43.0


From 6c64ba0ae48ac85a4829b3b5e31da2c62b94a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 03/48] fix: do not return unverified single-statement chains
 for entities without authorities

---
 trustresolver.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index d3df817..44897bd 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -455,6 +455,21 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 				return t.signaturesVerified
 			}
 		}
+	} else if t.Entity != nil {
+		for _, ta := range anchors {
+			if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject) {
+				// the starting entity is a TA itself
+				jwks := ta.JWKS
+				if jwks.Set == nil {
+					jwks = t.Entity.JWKS
+				}
+				t.signaturesVerified = t.Entity.Verify(jwks)
+				if !t.signaturesVerified {
+					t.Authorities = []trustTree{}
+				}
+				return t.signaturesVerified
+			}
+		}
 	}
 	iValid := 0
 	for _, tt := range t.Authorities {
@@ -473,6 +488,10 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 		iValid++
 	}
 	t.Authorities = t.Authorities[:iValid]
+	if t.Authorities == nil {
+		// not a TA and without authorities: no chain ends here
+		t.Authorities = []trustTree{}
+	}
 	t.signaturesVerified = len(t.Authorities) > 0
 	return t.signaturesVerified
 }
-- 
2.43.0


From 0efb57479c3d3667431a69171b02435fb988b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 04/48] fix: do not keep the trust tree of a previous
 resolution

---
 trustresolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trustresolver.go b/trustresolver.go
index 44897bd..2d884a1 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -199,6 +199,7 @@ func (r *TrustResolver) ResolveToValidChainsWithoutVerifyingMetadata() TrustChai
 
 // Resolve starts the trust chain resolution process, building an internal trust tree
 func (r *TrustResolver) Resolve() {
+	r.trustTree = trustTree{}
 	if found, err := r.cacheGetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	} else if found {
-- 
2.43.0


From 2d32b2c40845a5f273116b50dd556e9e0a691072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 05/48] fix: cache trust chains only after their signatures
 were verified

---
 trustresolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 2d884a1..916a1ae 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -255,6 +255,10 @@ func (r TrustResolver) Chains() (chains TrustChains) {
 	if chains == nil {
 		return nil
 	}
+	if !r.trustTree.signaturesVerified {
+		// only verified chains may be served from the cache
+		return
+	}
 	if err = r.cacheSetTrustChains(chains); err != nil {
 		internal.Log(err.Error())
 	}
-- 
2.43.0


From d19d155c6d698c97652db2ad548f08f2770e2f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 06/48] fix: let the keys of the trust anchors enter the key of
 cached resolutions

---
 trustresolver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 916a1ae..771d39d 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -16,6 +16,7 @@ import (
 	"github.com/go-oidfed/lib/internal/http"
 	"github.com/go-oidfed/lib/internal/jwx"
 	"github.com/go-oidfed/lib/internal/utils"
+	"github.com/go-oidfed/lib/jwks"
 	"github.com/go-oidfed/lib/oidfedconst"
 	"github.com/go-oidfed/lib/unixtime"
 )
@@ -148,16 +149,20 @@ type TrustResolver struct {
 
 func (r TrustResolver) hash() ([]byte, error) {
 	tas := make([]string, len(r.TrustAnchors))
+	taKeys := make([]jwks.JWKS, len(r.TrustAnchors))
 	for i, ta := range r.TrustAnchors {
 		tas[i] = ta.EntityID
+		taKeys[i] = ta.JWKS
 	}
 	var forSerialization = struct {
 		StartingEntity string
 		TAs            []string
+		TAKeys         []jwks.JWKS
 		Types          []string
 	}{
 		StartingEntity: r.StartingEntity,
 		TAs:            tas,
+		TAKeys:         taKeys,
 		Types:          r.Types,
 	}
 	data, err := msgpack.Marshal(forSerialization)
-- 
2.43.0


From 8b056667ad9023b82653dbb42fcb29e4fffc90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 07/48] fix: do not cache values that are already outdated

---
 cache/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 635d577..b7c3dfc 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -91,8 +91,12 @@ func EntityStmtCacheKey(subID, issID string) string {
 	return Key(KeyEntityStatement, subkey)
 }
 
-// Set caches a value for the given key and duration in the cache
+// Set caches a value for the given key and duration in the cache.
+// A value whose duration is not positive is already outdated and is not cached.
 func Set(key string, value any, duration time.Duration) error {
+	if duration <= 0 {
+		return nil
+	}
 	return cacheCache.Set(key, value, duration)
 }
 
-- 
2.43.0


From 1dce7dc1e3f0cb03f82ddd946546e96292e0d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 08/48] fix: do not use values that the cache could not decode

---
 trustresolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 771d39d..12987fb 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -207,6 +207,7 @@ func (r *TrustResolver) Resolve() {
 	r.trustTree = trustTree{}
 	if found, err := r.cacheGetTrustTree(); err != nil {
 		internal.Log(err.Error())
+		r.trustTree = trustTree{}
 	} else if found {
 		internal.Log("Obtained trust tree from cache")
 		return
@@ -252,8 +253,7 @@ func (r TrustResolver) Chains() (chains TrustChains) {
 	chains, set, err := r.cacheGetTrustChains()
 	if err != nil {
 		internal.Log(err.Error())
-	}
-	if set {
+	} else if set {
 		return chains
 	}
 	chains = r.trustTree.chains()
-- 
2.43.0


From 324d055bdb3579ccf760de6572bee7742ee9263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 09/48] fix: verify a metadata policy also when only one
 superior has one

---
 metadataPolicy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index e79c97b..c011e97 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -177,7 +177,7 @@ func combineMetadataPolicy(parent, sub MetadataPolicy, pathInfo string) (Metadat
 		return parent, nil
 	}
 	if len(parent) == 0 {
-		return sub, nil
+		return sub, sub.Verify(pathInfo)
 	}
 	out := make(MetadataPolicy)
 	for k, pv := range parent {
-- 
2.43.0


From 7a3be1b9f1b4ba835832a9af958a99e67d42a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 10/48] fix: ignore unknown metadata policy operators instead
 of the policy they appear in

---
 metadataPolicy.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index c011e97..096969f 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -6,8 +6,6 @@ import (
 
 	"github.com/pkg/errors"
 	"tideland.dev/go/slices"
-
-	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // MetadataPolicies is a type for holding the different MetadataPolicy
@@ -213,7 +211,8 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 		if !ok {
 			// return nil, errors.Errorf("unknown policy operator '%s'; cannot combine these policies", op)
 			// We already checked that this is not a crit operator, so it is just ignored
-			return nil, nil
+			out[op] = av
+			continue
 		}
 		combined, err := operator.Merge(av, bv, pathInfo)
 		if err != nil {
@@ -232,12 +231,15 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 
 // Verify verifies that the MetadataPolicyEntry is valid
 func (p MetadataPolicyEntry) Verify(pathInfo string) error {
-	activeOperators := utils.MapKeys(p)
-	for _, opN := range activeOperators {
-		op, ok := operators[opN]
-		if !ok {
-			continue
+	activeOperators := make([]PolicyOperatorName, 0, len(p))
+	for opN := range p {
+		// operators that are not known (and not critical) are ignored
+		if _, ok := operators[opN]; ok {
+			activeOperators = append(activeOperators, opN)
 		}
+	}
+	for _, opN := range activeOperators {
+		op := operators[opN]
 		mayCombine := op.MayCombineWith()
 		if mayCombine == nil {
 			continue
-- 
2.43.0


From 7def00103e233ef4ffcac40e11ee409f09529545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 11/48] fix: do not panic on metadata policies with values of
 unexpected types

---
 internal/utils/slices.go | 68 ++++++++++++++++------------------------
 metadata.go              | 26 +++++++++++++--
 policyverifiers.go       |  3 ++
 3 files changed, 53 insertions(+), 44 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index f18a91d..81b8145 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -21,53 +21,22 @@ func RemoveFromSlice[C comparable](slice []C, v C) []C {
 	return result
 }
 
-// ReflectSliceCast casts a slice to another type using reflection
+// ReflectSliceCast casts a slice to another type using reflection; if one of the elements does not have the other
+// type the slice is returned as is
 func ReflectSliceCast(slice, newType any) any {
-	if !IsSlice(slice) {
+	if !IsSlice(slice) || !IsSlice(newType) {
 		return slice
 	}
 	typeType := reflect.TypeOf(newType)
 	sliceV := reflect.ValueOf(slice)
 	out := reflect.MakeSlice(typeType, sliceV.Len(), sliceV.Len())
 	for i := 0; i < sliceV.Len(); i++ {
-		vv := sliceV.Index(i)
-		var v reflect.Value
-		// This is stupid and has faults, but I did not find a better way
-		switch typeType.Elem().Kind() {
-		case reflect.Bool:
-			v = reflect.ValueOf(vv.Interface().(bool))
-		case reflect.Int:
-			v = reflect.ValueOf(vv.Interface().(int))
-		case reflect.Int8:
-			v = reflect.ValueOf(vv.Interface().(int8))
-		case reflect.Int16:
-			v = reflect.ValueOf(vv.Interface().(int16))
-		case reflect.Int32:
-			v = reflect.ValueOf(vv.Interface().(int32))
-		case reflect.Int64:
-			v = reflect.ValueOf(vv.Interface().(int64))
-		case reflect.Uint:
-			v = reflect.ValueOf(vv.Interface().(uint))
-		case reflect.Uint8:
-			v = reflect.ValueOf(vv.Interface().(uint8))
-		case reflect.Uint16:
-			v = reflect.ValueOf(vv.Interface().(uint16))
-		case reflect.Uint32:
-			v = reflect.ValueOf(vv.Interface().(uint32))
-		case reflect.Uint64:
-			v = reflect.ValueOf(vv.Interface().(uint64))
-		case reflect.Uintptr:
-			v = reflect.ValueOf(vv.Interface().(*uint))
-		case reflect.Float32:
-			v = reflect.ValueOf(vv.Interface().(float32))
-		case reflect.Float64:
-			v = reflect.ValueOf(vv.Interface().(float64))
-		case reflect.Interface:
-			v = vv
-		case reflect.String:
-			v = reflect.ValueOf(vv.Interface().(string))
-		default:
-			v = vv.Convert(typeType.Elem())
+		v := sliceV.Index(i)
+		if v.Kind() == reflect.Interface {
+			v = v.Elem()
+		}
+		if !v.IsValid() || !v.Type().AssignableTo(typeType.Elem()) {
+			return slice
 		}
 		out.Index(i).Set(v)
 	}
@@ -92,6 +61,12 @@ func ReflectSliceContains(v, slice any) bool {
 func ReflectUnion(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
+	if as == nil {
+		return bs
+	}
+	if bs == nil {
+		return as
+	}
 	out := reflect.ValueOf(as)
 	bV := reflect.ValueOf(bs)
 	if bV.Len() == 0 {
@@ -104,6 +79,11 @@ func ReflectUnion(a, b any) any {
 	if out.Len() == 0 {
 		return bV.Interface()
 	}
+	if out.Type().Elem() != bV.Type().Elem() {
+		// There is no common type for the elements
+		out = reflect.ValueOf(ReflectSliceCast(as, []any{}))
+		bV = reflect.ValueOf(ReflectSliceCast(bs, []any{}))
+	}
 	for i := 0; i < bV.Len(); i++ {
 		v := bV.Index(i)
 		if !ReflectSliceContains(v.Interface(), out.Interface()) {
@@ -117,8 +97,11 @@ func ReflectUnion(a, b any) any {
 func ReflectIntersect(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
+	if as == nil {
+		return nil
+	}
 	aV := reflect.ValueOf(as)
-	if aV.Type() != reflect.ValueOf(bs).Type() {
+	if bs != nil && aV.Type() != reflect.ValueOf(bs).Type() {
 		bs = ReflectSliceCast(bs, as)
 	}
 	out := reflect.New(reflect.TypeOf(as)).Elem()
@@ -135,6 +118,9 @@ func ReflectIntersect(a, b any) any {
 func ReflectIsSubsetOf(is, of any) bool {
 	is = Slicify(is)
 	of = Slicify(of)
+	if is == nil {
+		return true
+	}
 	isV := reflect.ValueOf(is)
 	for i := 0; i < isV.Len(); i++ {
 		v := isV.Index(i)
diff --git a/metadata.go b/metadata.go
index a9bf786..0f55590 100644
--- a/metadata.go
+++ b/metadata.go
@@ -303,16 +303,36 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 				rV = reflect.ValueOf(strings.Join(strSlice, " "))
 			}
 		}
-		if rV.IsValid() {
-			f.Set(rV)
-		} else {
+		if !rV.IsValid() {
 			f.SetZero()
+			continue
+		}
+		if !rV.Type().AssignableTo(f.Type()) {
+			// e.g. a json number for an integer claim
+			rV, err = convertTo(value, f.Type())
+			if err != nil {
+				return nil, errors.Wrapf(err, "metadata policy has unsuitable value for '%s.%s'", ownTag, j)
+			}
 		}
+		f.Set(rV)
 	}
 
 	return metadata, nil
 }
 
+// convertTo converts a value obtained from json to the passed type
+func convertTo(value any, t reflect.Type) (reflect.Value, error) {
+	data, err := json.Marshal(value)
+	if err != nil {
+		return reflect.Value{}, err
+	}
+	out := reflect.New(t)
+	if err = json.Unmarshal(data, out.Interface()); err != nil {
+		return reflect.Value{}, err
+	}
+	return out.Elem(), nil
+}
+
 // FindEntityMetadata finds metadata for the specified entity type in the
 // metadata and decodes it into the provided metadata object.
 func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
diff --git a/policyverifiers.go b/policyverifiers.go
index c57f1dd..4bbb1ba 100644
--- a/policyverifiers.go
+++ b/policyverifiers.go
@@ -150,6 +150,9 @@ func policyVerifyAddInOneOf(p MetadataPolicyEntry, pathInfo string) error {
 		return nil
 	}
 	addVs := utils.Slicify(addV)
+	if addVs == nil || reflect.ValueOf(addVs).Len() == 0 {
+		return nil
+	}
 	if reflect.ValueOf(addVs).Len() > 1 {
 		return errors.Errorf(
 			"cannot have multiple values in '%s' operator in combination with '%s' operator for '%s' policy",
-- 
2.43.0


From fc21003d0f5040f33a38e6980cc5b64bc6d53591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 12/48] fix: do not write into the slices passed to
 ReflectUnion

---
 internal/utils/slices.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index 81b8145..070aeb2 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -84,6 +84,8 @@ func ReflectUnion(a, b any) any {
 		out = reflect.ValueOf(ReflectSliceCast(as, []any{}))
 		bV = reflect.ValueOf(ReflectSliceCast(bs, []any{}))
 	}
+	// Do not append to a, others might use the same backing array
+	out = reflect.AppendSlice(reflect.MakeSlice(out.Type(), 0, out.Len()+bV.Len()), out)
 	for i := 0; i < bV.Len(); i++ {
 		v := bV.Index(i)
 		if !ReflectSliceContains(v.Interface(), out.Interface()) {
-- 
2.43.0


From 0c933746d2fd519ae5c521ceafdf24dda5ef6fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 13/48] fix: compare the elements of slices in both directions

---
 internal/utils/slices.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index 070aeb2..c5fdff9 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -146,8 +146,7 @@ func IsSlice(v interface{}) bool {
 	return reflect.TypeOf(v).Kind() == reflect.Slice
 }
 
-// SliceEqual uses reflection to check if two slices contain the same elements; order does not matter,
-// assumes no duplicate entries in a slice
+// SliceEqual uses reflection to check if two slices contain the same elements; order does not matter
 func SliceEqual(a, b interface{}) bool {
 	if a == nil || b == nil {
 		return a == b
@@ -159,12 +158,7 @@ func SliceEqual(a, b interface{}) bool {
 	if aV.Len() != bV.Len() {
 		return false
 	}
-	for i := 0; i < aV.Len(); i++ {
-		if !ReflectSliceContains(aV.Index(i).Interface(), bs) {
-			return false
-		}
-	}
-	return true
+	return ReflectIsSubsetOf(as, bs) && ReflectIsSubsetOf(bs, as)
 }
 
 // Slicify checks if an interface{} is a slice and if not returns a slice of the same type (as an interface{})
-- 
2.43.0


From 578296083b3a0ec69ab6f0cc0d6ebaa7e7f21246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 14/48] fix: compare integer claims with the numbers in
 metadata policies by value

---
 internal/utils/slices.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index c5fdff9..e29abf2 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -50,13 +50,30 @@ func ReflectSliceContains(v, slice any) bool {
 	}
 	sliceV := reflect.ValueOf(slice)
 	for i := 0; i < sliceV.Len(); i++ {
-		if reflect.DeepEqual(v, sliceV.Index(i).Interface()) {
+		if equal(v, sliceV.Index(i).Interface()) {
 			return true
 		}
 	}
 	return false
 }
 
+// equal checks if two values are (deeply) equal; integers and the floats that json numbers are decoded to are compared
+// by their value
+func equal(a, b any) bool {
+	if reflect.DeepEqual(a, b) {
+		return true
+	}
+	if i, ok := a.(int64); ok {
+		f, fok := b.(float64)
+		return fok && float64(i) == f
+	}
+	if i, ok := b.(int64); ok {
+		f, fok := a.(float64)
+		return fok && float64(i) == f
+	}
+	return false
+}
+
 // ReflectUnion uses reflection to compute the union of two slices
 func ReflectUnion(a, b any) any {
 	as := Slicify(a)
-- 
2.43.0


From 3f7df245d92ea4e95c039ef694a36b51385ec71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 15/48] fix: apply metadata policies for entity types unknown
 to this module

---
 metadata.go       | 25 +++++++++++++++++++++++++
 metadataPolicy.go | 10 +++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/metadata.go b/metadata.go
index 0f55590..88b4391 100644
--- a/metadata.go
+++ b/metadata.go
@@ -276,6 +276,9 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	if policy == nil {
 		return metadata, nil
 	}
+	if claims, ok := metadata.(map[string]any); ok {
+		return applyPolicyToClaims(claims, policy, ownTag)
+	}
 	v := reflect.ValueOf(metadata)
 	t := v.Elem().Type()
 
@@ -320,6 +323,28 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	return metadata, nil
 }
 
+// applyPolicyToClaims applies the policy to metadata claims for which there is no type; the passed claims are not
+// changed
+func applyPolicyToClaims(claims map[string]any, policy MetadataPolicy, ownTag string) (map[string]any, error) {
+	out := make(map[string]any, len(claims))
+	for k, v := range claims {
+		out[k] = v
+	}
+	for k, p := range policy {
+		current, set := claims[k]
+		value, err := p.ApplyTo(current, set, fmt.Sprintf("%s.%s", ownTag, k))
+		if err != nil {
+			return nil, err
+		}
+		if value == nil {
+			delete(out, k)
+		} else {
+			out[k] = value
+		}
+	}
+	return out, nil
+}
+
 // convertTo converts a value obtained from json to the passed type
 func convertTo(value any, t reflect.Type) (reflect.Value, error) {
 	data, err := json.Marshal(value)
diff --git a/metadataPolicy.go b/metadataPolicy.go
index 096969f..c12cbbe 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -51,9 +51,13 @@ func (m *MetadataPolicies) UnmarshalJSON(data []byte) error {
 	if len(extra) > 0 {
 		policyMap := make(map[string]MetadataPolicy)
 		for k, v := range extra {
-			policy, ok := v.(MetadataPolicy)
-			if !ok {
-				return errors.Errorf("non MetadataPolicy in metadata policies")
+			policyData, err := json.Marshal(v)
+			if err != nil {
+				return errors.WithStack(err)
+			}
+			var policy MetadataPolicy
+			if err = json.Unmarshal(policyData, &policy); err != nil {
+				return errors.Wrap(err, "non MetadataPolicy in metadata policies")
 			}
 
 			policyMap[k] = policy
-- 
2.43.0


From e99e6eac6161dab6454d1a665190b299a3ca4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 16/48] fix: apply metadata policies also to claims unknown to
 this module

---
 metadata.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 88b4391..a48126c 100644
--- a/metadata.go
+++ b/metadata.go
@@ -284,12 +284,17 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 
 	wasSetField := v.Elem().FieldByName("wasSet")
 	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	otherClaims := make(MetadataPolicy, len(policy))
+	for j, p := range policy {
+		otherClaims[j] = p
+	}
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
-		if !ok {
+		if !ok || j == "-" {
 			continue
 		}
 		j = strings.TrimSuffix(j, ",omitempty")
+		delete(otherClaims, j)
 		p, ok := policy[j]
 		if !ok {
 			continue
@@ -320,6 +325,18 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 		f.Set(rV)
 	}
 
+	if len(otherClaims) > 0 {
+		extraField := v.Elem().FieldByName("Extra")
+		extra, _ := extraField.Interface().(map[string]any)
+		applied, err := applyPolicyToClaims(extra, otherClaims, ownTag)
+		if err != nil {
+			return nil, err
+		}
+		if len(applied) > 0 || extra != nil {
+			extraField.Set(reflect.ValueOf(applied))
+		}
+	}
+
 	return metadata, nil
 }
 
-- 
2.43.0


From 1e3b383909da9b73f23e93100e34141ee0d420a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 17/48] fix: do not panic when metadata with a policy is not an
 object

---
 metadata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata.go b/metadata.go
index a48126c..282311c 100644
--- a/metadata.go
+++ b/metadata.go
@@ -280,6 +280,9 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 		return applyPolicyToClaims(claims, policy, ownTag)
 	}
 	v := reflect.ValueOf(metadata)
+	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct || !v.Elem().FieldByName("wasSet").IsValid() {
+		return nil, errors.Errorf("cannot apply metadata policy to metadata of '%s'", ownTag)
+	}
 	t := v.Elem().Type()
 
 	wasSetField := v.Elem().FieldByName("wasSet")
-- 
2.43.0


From f41d012201eb7725af39978581b92499803309c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 18/48] fix: require the expected typ in every signature of a
 JWT

---
 internal/jwx/jws.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 580bb27..e63c731 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -58,14 +58,19 @@ func (p *ParsedJWT) VerifyWithSet(keys myjwk.JWKS) ([]byte, error) {
 	return jws.Verify(p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)))
 }
 
-// VerifyType verifies that the header typ has a certain value
+// VerifyType verifies that the header typ has a certain value; since any of several signatures can be the one that
+// verifies, all of them must have that value
 func (p *ParsedJWT) VerifyType(typ string) bool {
-	if p.Signatures() == nil {
+	if len(p.Signatures()) == 0 {
 		return false
 	}
-	head := p.Signatures()[0].ProtectedHeaders()
-	headerTyp, typSet := head.Type()
-	return typSet && headerTyp == typ
+	for _, signature := range p.Signatures() {
+		headerTyp, typSet := signature.ProtectedHeaders().Type()
+		if !typSet || headerTyp != typ {
+			return false
+		}
+	}
+	return true
 }
 
 // SignWithType creates a signed JWT of the passed type for the passed payload using the
-- 
2.43.0


From 625c1ea7edd534c006890b1cf84beecc743a6829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 19/48] fix: report only trust marks that are about the entity

---
 discovery.go         |  6 ++++--
 metadata_resolver.go |  4 +++-
 trustmark.go         | 10 ++++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4554f91..1abd4bc 100644
--- a/discovery.go
+++ b/discovery.go
@@ -318,7 +318,7 @@ func (d *SimpleEntityCollector) collect(
 							}
 
 							for _, trustMarkType := range req.TrustMarkTypes {
-								trustMarkInfo := entityConfig.TrustMarks.FindByID(trustMarkType)
+								trustMarkInfo := entityConfig.TrustMarks.issuedTo(subordinateID).FindByID(trustMarkType)
 								if trustMarkInfo == nil {
 									includeEntity = false
 									break
@@ -426,7 +426,9 @@ func (d *SimpleEntityCollector) collect(
 										},
 									)
 									if taErr == nil {
-										collectedEntity.TrustMarks = entityConfig.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload)
+										collectedEntity.TrustMarks = entityConfig.TrustMarks.issuedTo(subordinateID).VerifiedFederation(
+											&ta.EntityStatementPayload,
+										)
 									}
 								}
 
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 6cac3b0..18c8cf3 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -76,7 +76,9 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 	if err != nil {
 		return
 	}
-	res.TrustMarks = chain[0].TrustMarks.VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
+	res.TrustMarks = chain[0].TrustMarks.issuedTo(chain[0].Subject).VerifiedFederation(
+		&chain[len(chain)-1].EntityStatementPayload,
+	)
 	return
 }
 
diff --git a/trustmark.go b/trustmark.go
index 5714f3d..b09d7b0 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -42,6 +42,16 @@ func (tms TrustMarkInfos) VerifiedExternal(
 	return
 }
 
+// issuedTo returns the TrustMarkInfos whose trust mark is about the passed entity
+func (tms TrustMarkInfos) issuedTo(entityID string) (issued TrustMarkInfos) {
+	for _, tm := range tms {
+		if mark, err := tm.TrustMark(); err == nil && mark.Subject == entityID {
+			issued = append(issued, tm)
+		}
+	}
+	return
+}
+
 // Find uses the passed function to find the first matching TrustMarkInfo
 func (tms TrustMarkInfos) Find(matcher func(info TrustMarkInfo) bool) *TrustMarkInfo {
 	for _, tm := range tms {
-- 
2.43.0


From fc04f9b858f058cf371d5163943d020d03729b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 20/48] fix: apply a custom lifetime to delegations whose
 default is unlimited

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index b09d7b0..3b49bce 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -573,7 +573,7 @@ func (tmo TrustMarkOwner) DelegationJWT(trustMarkType, sub string, lifetime ...t
 	if len(lifetime) > 0 {
 		lf = lifetime[0]
 	}
-	if spec.DelegationLifetime != 0 {
+	if lf != 0 {
 		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}
 	}
 	return tmo.TrustMarkDelegationSigner.JWT(delegation)
-- 
2.43.0


From b532f8b8d2f04212b54a107db0e4a340ab89352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 21/48] fix: keep trust marks without expiration in the entity
 configuration

---
 trustmark_refresher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index e33741e..90f5dda 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -84,6 +84,10 @@ func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
 	if !c.Refresh {
 		return c.JWT, nil
 	}
+	if c.JWT != "" && c.expiration.IsZero() {
+		// does not expire
+		return c.JWT, nil
+	}
 	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
 		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
 			go c.refresh()
-- 
2.43.0


From 43003bbc3884a3b5364a5d0038e0c3f077239dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 22/48] fix: do not replace a trust mark by one of another type
 or about another entity

---
 trustmark_refresher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 90f5dda..b2f87c0 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -148,6 +148,9 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
+	if tm.TrustMarkType != c.TrustMarkType || tm.Subject != c.sub {
+		return errors.New("trust mark issuer returned a trust mark of another type or about another entity")
+	}
 	c.JWT = string(tm.jwtMsg.RawJWT)
 	if tm.ExpiresAt != nil {
 		c.expiration = *tm.ExpiresAt
-- 
2.43.0


From 75a4e41be220c9b7dacc97d84f2001fd4d2b3aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 23/48] fix: synchronize background refresh of trust marks with
 their use

---
 trustmark_refresher.go | 66 ++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index b2f87c0..5ef2756 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -2,6 +2,7 @@ package oidfed
 
 import (
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/lestrrat-go/jwx/v3/jwt"
@@ -28,6 +29,7 @@ type EntityConfigurationTrustMarkConfig struct {
 	sub                  string
 	ownTrustMarkEndpoint string
 	ownTrustMarkIssuer   *TrustMarkIssuer
+	mu                   sync.Mutex // guards JWT, expiration, and lastTried once Verify returned
 }
 
 // Verify verifies that the EntityConfigurationTrustMarkConfig is correct and also extracts trust mark id and issuer
@@ -81,42 +83,67 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 // TrustMarkJWT returns a trust mark jwt for the linked trust mark,
 // if needed the trust mark is refreshed using the trust mark issuer's trust mark endpoint
 func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
+	jwt, expiration := c.current()
 	if !c.Refresh {
-		return c.JWT, nil
+		return jwt, nil
 	}
-	if c.JWT != "" && c.expiration.IsZero() {
+	if jwt != "" && expiration.IsZero() {
 		// does not expire
-		return c.JWT, nil
+		return jwt, nil
 	}
-	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
-		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
+	if jwt != "" && unixtime.Until(expiration) > c.MinLifetime.Duration {
+		if unixtime.Until(expiration) < c.RefreshGracePeriod.Duration {
 			go c.refresh()
 		}
-		return c.JWT, nil
+		return jwt, nil
 	}
 	err := c.refresh()
-	return c.JWT, err
+	jwt, _ = c.current()
+	return jwt, err
+}
+
+// current returns the current trust mark jwt and its expiration
+func (c *EntityConfigurationTrustMarkConfig) current() (string, unixtime.Unixtime) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.JWT, c.expiration
+}
+
+// replace sets the current trust mark jwt and its expiration
+func (c *EntityConfigurationTrustMarkConfig) replace(jwt string, exp *unixtime.Unixtime) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.JWT = jwt
+	if exp != nil {
+		c.expiration = *exp
+	} else {
+		c.expiration = unixtime.Unixtime{}
+	}
+}
+
+// mayTry checks and records that a refresh is tried
+func (c *EntityConfigurationTrustMarkConfig) mayTry() bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if time.Since(c.lastTried.Time) < time.Minute {
+		return false
+	}
+	c.lastTried = unixtime.Now()
+	return true
 }
 
 // refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint
 func (c *EntityConfigurationTrustMarkConfig) refresh() error {
-	if time.Since(c.lastTried.Time) < time.Minute {
+	if !c.mayTry() {
 		// Only try once a minute to obtain a new trust mark
 		return errors.New("only trying to refresh trust mark once a minute")
 	}
-	c.lastTried = unixtime.Now()
 	if c.SelfIssued {
 		tmi, err := c.ownTrustMarkIssuer.IssueTrustMark(c.TrustMarkType, c.sub)
 		if err != nil {
 			return err
 		}
-		c.JWT = tmi.TrustMarkJWT
-		exp := tmi.trustmark.ExpiresAt
-		if exp != nil {
-			c.expiration = *exp
-		} else {
-			c.expiration = unixtime.Unixtime{}
-		}
+		c.replace(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)
 		return nil
 	}
 
@@ -151,11 +178,6 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if tm.TrustMarkType != c.TrustMarkType || tm.Subject != c.sub {
 		return errors.New("trust mark issuer returned a trust mark of another type or about another entity")
 	}
-	c.JWT = string(tm.jwtMsg.RawJWT)
-	if tm.ExpiresAt != nil {
-		c.expiration = *tm.ExpiresAt
-	} else {
-		c.expiration = unixtime.Unixtime{}
-	}
+	c.replace(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
 	return nil
 }
-- 
2.43.0


From 659cd02029082630f29d2e5151bdf02284121f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 24/48] fix: accept trust mark JWTs in the entity configuration

jwt.Parse without keys refuses every JWT, so a configured trust mark JWT
could not be used; it is the entity's own configuration, and the JWT is only
inspected for its type, issuer, and expiration.
---
 trustmark_refresher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 5ef2756..bbf372b 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -47,7 +47,7 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	}
 
 	if c.JWT != "" {
-		parsed, err := jwt.Parse([]byte(c.JWT))
+		parsed, err := jwt.ParseInsecure([]byte(c.JWT))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 255c888872f6031e9e501b321bad402ce27d4d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 25/48] fix: sort trust chains by their own scores

The comparison used the scores by index although sorting moves the chains,
so that more than two chains could end up in the wrong order.
---
 trustchainfilter.go | 46 ++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index f253fce..be437f8 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -20,31 +20,47 @@ func (c TrustChains) Filter(filter ...TrustChainsFilter) TrustChains {
 
 // SortAsc sorts multiple TrustChains ascending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortAsc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
-	for i, tc := range c {
-		scores[i] = scorer(tc)
-	}
-
+	scored := c.score(scorer)
 	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] < scores[j] // skipcq: GO-W4009
+		scored, func(i, j int) bool {
+			return scored[i].score < scored[j].score // skipcq: GO-W4009
 		},
 	)
-	return c
+	return c.assign(scored)
 }
 
 // SortDesc sorts multiple TrustChains descending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortDesc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
-	for i, tc := range c {
-		scores[i] = scorer(tc)
-	}
-
+	scored := c.score(scorer)
 	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] > scores[j] // skipcq: GO-W4009
+		scored, func(i, j int) bool {
+			return scored[i].score > scored[j].score // skipcq: GO-W4009
 		},
 	)
+	return c.assign(scored)
+}
+
+// scoredTrustChain is a TrustChain together with its score
+type scoredTrustChain struct {
+	chain TrustChain
+	score int
+}
+
+func (c TrustChains) score(scorer TrustChainScoringFnc) []scoredTrustChain {
+	scored := make([]scoredTrustChain, len(c))
+	for i, tc := range c {
+		scored[i] = scoredTrustChain{
+			chain: tc,
+			score: scorer(tc),
+		}
+	}
+	return scored
+}
+
+func (c TrustChains) assign(scored []scoredTrustChain) TrustChains {
+	for i, sc := range scored {
+		c[i] = sc.chain
+	}
 	return c
 }
 
-- 
2.43.0


From e71719307f22e3920fc1a484560d6db166581ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 26/48] fix: do not modify the passed values when creating
 request objects

Otherwise all request objects made from the same values had the same jti.
---
 authcode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/authcode.go b/authcode.go
index 85eb3db..800431d 100644
--- a/authcode.go
+++ b/authcode.go
@@ -4,6 +4,7 @@ import (
 	"crypto"
 	"encoding/json"
 	"io"
+	"maps"
 	"net/http"
 	"net/url"
 	"time"
@@ -74,6 +75,7 @@ func (rop RequestObjectProducer) RequestObject(requestValues map[string]any) ([]
 	if _, audFound := requestValues["aud"]; !audFound {
 		return nil, errors.New("request must contain 'aud' claim with OPs issuer identifier url")
 	}
+	requestValues = maps.Clone(requestValues)
 	requestValues["iss"] = rop.EntityID
 	requestValues["client_id"] = rop.EntityID
 	delete(requestValues, "sub")
-- 
2.43.0


From 6de5ddcaba2c179eda901e469685446d935368c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 27/48] fix: keep the query of the authorization endpoint

---
 authcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index 800431d..5e716d1 100644
--- a/authcode.go
+++ b/authcode.go
@@ -153,7 +153,7 @@ func (f FederationLeaf) GetAuthorizationURL(
 	if err != nil {
 		return "", errors.WithStack(err)
 	}
-	q := url.Values{}
+	q := u.Query()
 	q.Set("request", string(requestObject))
 	q.Set("client_id", f.EntityID)
 	q.Set("response_type", "code")
-- 
2.43.0


From 5b9606b40cc243b3a574a777b15bc3091aaf64f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 28/48] fix: do not add credentials to the parameters passed
 for the code exchange

---
 authcode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/authcode.go b/authcode.go
index 5e716d1..f10a51c 100644
--- a/authcode.go
+++ b/authcode.go
@@ -172,9 +172,9 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
-	params := additionalParameter
-	if params == nil {
-		params = url.Values{}
+	params := url.Values{}
+	for k, v := range additionalParameter {
+		params[k] = v
 	}
 	params.Set("grant_type", "authorization_code")
 	params.Set("code", code)
-- 
2.43.0


From 89abd3a5bbb0c0a2a6cedbf9394fbe042a26e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 29/48] fix: do not treat failed code exchanges as successful

---
 authcode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/authcode.go b/authcode.go
index f10a51c..f32e451 100644
--- a/authcode.go
+++ b/authcode.go
@@ -192,6 +192,7 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
+	defer res.Body.Close()
 
 	body, err := io.ReadAll(res.Body)
 	if err != nil {
@@ -205,6 +206,9 @@ func (f FederationLeaf) CodeExchange(
 	if errRes.Error != "" {
 		return nil, &errRes, nil
 	}
+	if res.StatusCode < 200 || res.StatusCode > 299 {
+		return nil, nil, errors.Errorf("token endpoint returned status %d", res.StatusCode)
+	}
 	if err = json.Unmarshal(body, &tokenRes); err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From a40fe8a497039d0b4926e7ce061f330251144203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 30/48] fix: do not treat http error responses without error
 member as success

---
 internal/http/http.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/http/http.go b/internal/http/http.go
index 8d3c404..9d2ba53 100644
--- a/internal/http/http.go
+++ b/internal/http/http.go
@@ -48,21 +48,34 @@ func Get(url string, params url.Values, res interface{}) (*resty.Response, *Http
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
 }
 
+// errorResponse returns the HttpError of a response or nil if the request was successful
+func errorResponse(resp *resty.Response) *HttpError {
+	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
+		errRes.Status = resp.RawResponse.StatusCode
+		return errRes
+	}
+	if !resp.IsSuccess() {
+		return &HttpError{
+			Error:  resp.Status(),
+			Status: resp.StatusCode(),
+		}
+	}
+	return nil
+}
+
 // Post performs a http POST request and parses the response into the given interface{}
 func Post(url string, req interface{}, res interface{}) (*resty.Response, *HttpError, error) {
 	resp, err := client.R().SetBody(req).SetError(&HttpError{}).SetResult(res).Post(url)
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
-- 
2.43.0


From d5be676b6f0e3d9f6521634ebaef47660c7e6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 31/48] fix: do not report a failed resolve request as an
 invalid entity

---
 metadata_resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 18c8cf3..a66358c 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -170,7 +170,7 @@ func (r SimpleRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveReques
 	_, resStatus, err := r.ResolveResponse(req)
 	if err != nil {
 		internal.Log(err.Error())
-		return false, true
+		return false, false
 	}
 	switch resStatus {
 	case resolveStatusValid, resolveStatusOnlyValidTrustChain:
-- 
2.43.0


From d23f605fdfc544b91360d4618bf1d0af80d0969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 32/48] fix: do not panic if an issuer has no openid provider
 metadata

---
 federation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation.go b/federation.go
index bddd1d7..40b876d 100644
--- a/federation.go
+++ b/federation.go
@@ -146,5 +146,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
+	if metadata == nil || metadata.OpenIDProvider == nil {
+		return nil, errors.New("resolved metadata does not contain metadata of an openid provider")
+	}
 	return metadata.OpenIDProvider, nil
 }
-- 
2.43.0


From aa22663204881063e1ce6b7590eaa0b341737bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 33/48] fix: reject unset lists that are essential

---
 policyoperators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/policyoperators.go b/policyoperators.go
index 882e81b..ef35987 100644
--- a/policyoperators.go
+++ b/policyoperators.go
@@ -351,7 +351,7 @@ var policyOperatorEssential = NewPolicyOperator(
 			return value, valueSet, nil
 		}
 		if essential, eok := policyValue.(bool); eok && essential &&
-			(value == nil || (!utils.IsSlice(value) && reflect.ValueOf(value).IsZero())) {
+			(value == nil || ((!valueSet || !utils.IsSlice(value)) && reflect.ValueOf(value).IsZero())) {
 			return nil, valueSet, errors.Errorf("metadata value for '%s' not set but required", pathInfo)
 		}
 		return value, valueSet, nil
-- 
2.43.0


From f1f3ed5df5d17d2c86452d19e25826f58c9e44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 34/48] fix: synchronize the entities visited by the collector

---
 discovery.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/discovery.go b/discovery.go
index 1abd4bc..8f706f7 100644
--- a/discovery.go
+++ b/discovery.go
@@ -165,6 +165,18 @@ type EntityCollector interface {
 // federation
 type SimpleEntityCollector struct {
 	visitedEntities *strset.Set
+	mu              sync.Mutex // guards visitedEntities
+}
+
+// visit records that an entity is visited; it returns false if it already was
+func (d *SimpleEntityCollector) visit(entityID string) bool {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	if d.visitedEntities.Has(entityID) {
+		return false
+	}
+	d.visitedEntities.Add(entityID)
+	return true
 }
 
 // SimpleOPCollector is an EntityCollector that uses the
@@ -218,7 +230,9 @@ type FilterableVerifiedChainsEntityCollector struct {
 
 // CollectEntities implements the EntityCollector interface
 func (d *SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
+	d.mu.Lock()
 	d.visitedEntities = strset.New()
+	d.mu.Unlock()
 	return d.collect(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
 }
 
@@ -269,11 +283,10 @@ func (d *SimpleEntityCollector) collect(
 	for _, authority := range authorities {
 		run(
 			func() {
-				if d.visitedEntities.Has(authority.EntityID) {
+				if !d.visit(authority.EntityID) {
 					internal.Logf("Already visited: %s -> skipping", authority.EntityID)
 					return
 				}
-				d.visitedEntities.Add(authority.EntityID)
 
 				stmt, err := GetEntityConfiguration(authority.EntityID)
 				if err != nil {
-- 
2.43.0


From d0710489b635eec7fe65a1e77d49c48b7aab205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 35/48] fix: synchronize access to cached values

---
 cache/cache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index b7c3dfc..3c5df69 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"encoding/base64"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/TwiN/gocache/v2"
@@ -22,6 +23,8 @@ type Cache interface {
 // internal cache
 type cacheWrapper struct {
 	c *gocache.Cache
+	// mu is needed because gocache reads the value of an entry after it released its own lock
+	mu *sync.RWMutex
 }
 
 func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
@@ -30,13 +33,16 @@ func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
 		log.Fatal(err) // skipcq: RVV-A0003
 	}
 	return cacheWrapper{
-		c,
+		c:  c,
+		mu: &sync.RWMutex{},
 	}
 }
 
 // Get implements the Cache interface
 func (c cacheWrapper) Get(key string, target any) (bool, error) {
+	c.mu.RLock()
 	entryV, ok := c.c.Get(key)
+	c.mu.RUnlock()
 	if !ok {
 		return false, nil
 	}
@@ -54,6 +60,8 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.c.SetWithTTL(key, data, expiration)
 	return nil
 }
-- 
2.43.0


From 3a2d09e1a3bf6f1bcbee15853c7b9fd19e2dde2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:30 +0000
Subject: [PATCH 36/48] fix: set the ui info fields of collected entities

---
 discovery.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/discovery.go b/discovery.go
index 8f706f7..ef8c521 100644
--- a/discovery.go
+++ b/discovery.go
@@ -74,11 +74,7 @@ func (e *CollectedEntity) setUIInfoField(
 
 	for i := 0; i < uiInfoType.NumField(); i++ {
 		structField := uiInfoType.Field(i)
-		tag := structField.Tag.Get("json")
-		tagName := tag
-		if commaIdx := len(tag); commaIdx != -1 {
-			tagName = tag[:commaIdx]
-		}
+		tagName, _, _ := strings.Cut(structField.Tag.Get("json"), ",")
 
 		if tagName == jsonTag {
 			fieldValue := uiInfoValue.Field(i)
-- 
2.43.0


From 6292ac3bee477bf85d55c927dd4c641e81f8f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 37/48] fix: collect string slice claims of metadata

---
 metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 282311c..8f1d8e9 100644
--- a/metadata.go
+++ b/metadata.go
@@ -136,7 +136,7 @@ func (m Metadata) IterateStringSliceClaim(tag string, iterator func(entityType s
 				jsonTag := subStructField.Tag.Get("json")
 				jsonTag = strings.TrimSuffix(jsonTag, ",omitempty")
 
-				if jsonTag == tag && subField.Kind() == reflect.String {
+				if jsonTag == tag && subField.Type() == reflect.TypeOf([]string(nil)) {
 					slice := subField.Interface().([]string)
 					if slice != nil {
 						iterator(entityTag, slice)
-- 
2.43.0


From 7f88a142c02bd5b0e00fdddd492a2f02725b1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 38/48] fix: decode found metadata into the provided object

---
 metadata.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/metadata.go b/metadata.go
index 8f1d8e9..70cbdd1 100644
--- a/metadata.go
+++ b/metadata.go
@@ -391,20 +391,16 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 			continue
 		}
 		j = strings.TrimSuffix(j, ",omitempty")
-		if j != entityType {
+		if j == "-" || j != entityType {
 			continue
 		}
-		if j == entityType {
-			fmt.Printf("found entity type %s\n", entityType)
-		}
 
 		value := v.Elem().FieldByName(t.Field(i).Name)
 		if value.IsZero() {
 			continue
 		}
 
-		metadata = value.Interface()
-		return nil
+		return decodeInto(value.Interface(), metadata)
 	}
 
 	// Requested entity type was not a struct field, so find it in the extra metadata.
@@ -416,7 +412,12 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 	// Go will deserialize each metadata into a map[string]interface{}. There may be a nicer way to
 	// do this with generics, but we encode that back to JSON, then decode it into the provided
 	// struct so we can use RTTI to give the caller a richer representation.
-	jsonMetadata, err := json.Marshal(metadataMap)
+	return decodeInto(metadataMap, metadata)
+}
+
+// decodeInto encodes the found metadata to JSON and decodes it into the provided metadata object
+func decodeInto(found, metadata any) error {
+	jsonMetadata, err := json.Marshal(found)
 	if err != nil {
 		return errors.Errorf("failed to marshal metadata: %s", err)
 	}
-- 
2.43.0


From 8aad5b011953f8cfdcf59829453ad8f45bed0849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 39/48] fix: include entity types without a metadata type

---
 metadata.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 70cbdd1..b2472c6 100644
--- a/metadata.go
+++ b/metadata.go
@@ -3,7 +3,9 @@ package oidfed
 import (
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"strings"
 	"unsafe"
 
@@ -40,7 +42,7 @@ func (m Metadata) GuessEntityTypes() (entityTypes []string) {
 			entityTypes = append(entityTypes, jsonTag)
 		}
 	}
-	return
+	return append(entityTypes, slices.Sorted(maps.Keys(m.Extra))...)
 }
 
 // GuessDisplayName implements the DisplayNameGuesser interface
-- 
2.43.0


From 9b467a349d1b453a2e06df9fed8c4b1c89650f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:05 +0000
Subject: [PATCH 40/48] fix: send the name_query of an entity collection
 request under its name

---
 apimodel/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apimodel/collection.go b/apimodel/collection.go
index 40614c6..73b6d93 100644
--- a/apimodel/collection.go
+++ b/apimodel/collection.go
@@ -7,6 +7,6 @@ type EntityCollectionRequest struct {
 	TrustMarkTypes []string `json:"trust_mark_type" form:"trust_mark_type" query:"trust_mark_type" url:"trust_mark_type"`
 	TrustAnchor    string   `json:"trust_anchor" form:"trust_anchor" query:"trust_anchor" url:"trust_anchor"`
 	EntityTypes    []string `json:"entity_type" form:"entity_type" query:"entity_type" url:"entity_type"`
-	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query"`
+	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query" url:"name_query"`
 	Claims         []string `json:"claims" form:"claims" query:"claims" url:"claims"`
 }
-- 
2.43.0


From e52038e839bfa5636fd0dd5f9abd4e61f0b4af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:33 +0000
Subject: [PATCH 41/48] fix: do not take the status of an error response from
 its body

---
 internal/http/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/http/http.go b/internal/http/http.go
index 9d2ba53..4148dee 100644
--- a/internal/http/http.go
+++ b/internal/http/http.go
@@ -24,7 +24,7 @@ func init() {
 type HttpError struct {
 	Error            string `json:"error"`
 	ErrorDescription string `json:"error_description"`
-	Status           int
+	Status           int    `json:"-"`
 }
 
 // Err returns an error including the server's error response
-- 
2.43.0


From 56cd6688579f206927799ba3fca6bbc14a37f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 42/48] fix: keep which metadata claims are set when caching
 metadata

---
 internal/generators/metadata.go | 12 ++++++++
 metadata.go                     | 54 +++++++++++++++++++++++++++++++++
 metadata_generated.go           | 28 +++++++++++++++++
 3 files changed, 94 insertions(+)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index 12ba173..b2aee84 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -317,6 +317,18 @@ func (m *%s) UnmarshalMsgpack(data []byte) error {
 
 	unmarshalMsgpack(&sb, withPtrsName)
 
+	sb.WriteString(
+		fmt.Sprintf(
+			`
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m %s) MarshalMsgpack() ([]byte, error) {
+	var withPtrs %s
+	toPointers(m, m.wasSet, &withPtrs)
+	return msgpack.Marshal(withPtrs)
+}
+`, name, withPtrsName,
+		),
+	)
 	sb.WriteString(
 		fmt.Sprintf(
 			`
diff --git a/metadata.go b/metadata.go
index b2472c6..d97cf89 100644
--- a/metadata.go
+++ b/metadata.go
@@ -10,6 +10,7 @@ import (
 	"unsafe"
 
 	"github.com/pkg/errors"
+	"github.com/vmihailenco/msgpack/v5"
 )
 
 // Metadata is a type for holding the different metadata types
@@ -427,6 +428,29 @@ func decodeInto(found, metadata any) error {
 	return json.Unmarshal(jsonMetadata, metadata)
 }
 
+// toPointers sets those fields of withPtrs for which orig has a claim set, so that claims that are not set can be
+// distinguished from claims set to their zero value
+func toPointers(orig any, wasSet map[string]bool, withPtrs any) {
+	valOrig := reflect.ValueOf(orig)
+	valWithPtrs := reflect.ValueOf(withPtrs).Elem()
+	typeWithPtrs := valWithPtrs.Type()
+
+	for i := 0; i < typeWithPtrs.NumField(); i++ {
+		ptrField := valWithPtrs.Field(i)
+		fieldName := typeWithPtrs.Field(i).Name
+		origField := valOrig.FieldByName(fieldName)
+		if ptrField.Kind() != reflect.Ptr || origField.Kind() == reflect.Ptr {
+			ptrField.Set(origField)
+			continue
+		}
+		if wasSet[fieldName] || !origField.IsZero() {
+			ptr := reflect.New(origField.Type())
+			ptr.Elem().Set(origField)
+			ptrField.Set(ptr)
+		}
+	}
+}
+
 // OAuthClientMetadata is a type for holding the metadata about an oauth client
 type OAuthClientMetadata OpenIDRelyingPartyMetadata
 type oAuthClientMetadataWithPtrs openIDRelyingPartyMetadataWithPtrs
@@ -466,6 +490,21 @@ func (m *oAuthAuthorizationServerMetadataWithPtrs) UnmarshalJSON(data []byte) er
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthAuthorizationServerMetadata) MarshalMsgpack() ([]byte, error) {
+	return msgpack.Marshal(OpenIDProviderMetadata(m))
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthAuthorizationServerMetadata) UnmarshalMsgpack(data []byte) error {
+	op := OpenIDProviderMetadata(*m)
+	if err := msgpack.Unmarshal(data, &op); err != nil {
+		return err
+	}
+	*m = OAuthAuthorizationServerMetadata(op)
+	return nil
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthAuthorizationServerMetadata
 func (m OAuthAuthorizationServerMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_authorization_server")
@@ -501,6 +540,21 @@ func (m *oAuthClientMetadataWithPtrs) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthClientMetadata) MarshalMsgpack() ([]byte, error) {
+	return msgpack.Marshal(OpenIDRelyingPartyMetadata(m))
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthClientMetadata) UnmarshalMsgpack(data []byte) error {
+	rp := OpenIDRelyingPartyMetadata(*m)
+	if err := msgpack.Unmarshal(data, &rp); err != nil {
+		return err
+	}
+	*m = OAuthClientMetadata(rp)
+	return nil
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthClientMetadata
 func (m OAuthClientMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_client")
diff --git a/metadata_generated.go b/metadata_generated.go
index 7103400..b38b1c4 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -141,6 +141,13 @@ func (m *federationEntityMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m FederationEntityMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs federationEntityMetadataWithPtrs
+	toPointers(m, m.wasSet, &withPtrs)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *FederationEntityMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs federationEntityMetadataWithPtrs
@@ -390,6 +397,13 @@ func (m *openIDRelyingPartyMetadataWithPtrs) UnmarshalMsgpack(data []byte) error
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDRelyingPartyMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs openIDRelyingPartyMetadataWithPtrs
+	toPointers(m, m.wasSet, &withPtrs)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDRelyingPartyMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs openIDRelyingPartyMetadataWithPtrs
@@ -663,6 +677,13 @@ func (m *openIDProviderMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDProviderMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs openIDProviderMetadataWithPtrs
+	toPointers(m, m.wasSet, &withPtrs)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDProviderMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs openIDProviderMetadataWithPtrs
@@ -822,6 +843,13 @@ func (m *oAuthProtectedResourceMetadataWithPtrs) UnmarshalMsgpack(data []byte) e
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthProtectedResourceMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs oAuthProtectedResourceMetadataWithPtrs
+	toPointers(m, m.wasSet, &withPtrs)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OAuthProtectedResourceMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs oAuthProtectedResourceMetadataWithPtrs
-- 
2.43.0


From ff4c42dd16ffa03a75804023f59b9871f6d66b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 43/48] fix: decode the jwt claims of a resolve response and
 encode one without payload

---
 trustresolver.go | 75 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 12987fb..7a84631 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -48,34 +48,69 @@ type ResolveResponse struct {
 	ResolveResponsePayload `json:",inline"`
 }
 
+// resolveResponseClaims are the claims of a ResolveResponse that are not part of the ResolveResponsePayload
+type resolveResponseClaims struct {
+	Issuer    string            `json:"iss"`
+	Subject   string            `json:"sub"`
+	IssuedAt  unixtime.Unixtime `json:"iat"`
+	ExpiresAt unixtime.Unixtime `json:"exp"`
+	Audience  string            `json:"aud,omitempty"`
+}
+
 // MarshalJSON implements the json.Marshaler interface.
 // It also marshals extra fields.
 func (r ResolveResponse) MarshalJSON() ([]byte, error) {
-	payload, err := r.ResolveResponsePayload.MarshalJSON()
-	if err != nil {
-		return nil, err
-	}
-	type additionalData struct {
-		Issuer    string            `json:"iss"`
-		Subject   string            `json:"sub"`
-		IssuedAt  unixtime.Unixtime `json:"iat"`
-		ExpiresAt unixtime.Unixtime `json:"exp"`
-		Audience  string            `json:"aud,omitempty"`
-	}
-	additional, err := json.Marshal(
-		additionalData{
-			Issuer:    r.Issuer,
-			Subject:   r.Subject,
-			IssuedAt:  r.IssuedAt,
-			ExpiresAt: r.ExpiresAt,
-			Audience:  r.Audience,
+	type payload ResolveResponsePayload
+	explicitFields, err := json.Marshal(
+		struct {
+			resolveResponseClaims
+			payload
+		}{
+			resolveResponseClaims: resolveResponseClaims{
+				Issuer:    r.Issuer,
+				Subject:   r.Subject,
+				IssuedAt:  r.IssuedAt,
+				ExpiresAt: r.ExpiresAt,
+				Audience:  r.Audience,
+			},
+			payload: payload(r.ResolveResponsePayload),
 		},
 	)
 	if err != nil {
 		return nil, err
 	}
-	additional[0] = ','
-	return extraMarshalHelper(append(payload[:len(payload)-1], additional...), r.Extra)
+	return extraMarshalHelper(explicitFields, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface.
+// It also unmarshalls additional fields into the Extra claim.
+func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
+	var claims resolveResponseClaims
+	notClaims, err := unmarshalWithExtra(data, &claims)
+	if err != nil {
+		return err
+	}
+	var payload ResolveResponsePayload
+	if err = json.Unmarshal(data, &payload); err != nil {
+		return err
+	}
+	for k := range payload.Extra {
+		if _, ok := notClaims[k]; !ok {
+			delete(payload.Extra, k)
+		}
+	}
+	if len(payload.Extra) == 0 {
+		payload.Extra = nil
+	}
+	*r = ResolveResponse{
+		Issuer:                 claims.Issuer,
+		Subject:                claims.Subject,
+		IssuedAt:               claims.IssuedAt,
+		ExpiresAt:              claims.ExpiresAt,
+		Audience:               claims.Audience,
+		ResolveResponsePayload: payload,
+	}
+	return nil
 }
 
 // ResolveResponsePayload holds the actual payload of a resolve response
-- 
2.43.0


From e475d1317b6b9b88ce19386a204bf92a13e71cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:50 +0000
Subject: [PATCH 44/48] fix: keep the extra members of an entity collection
 response

---
 discovery.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/discovery.go b/discovery.go
index ef8c521..b2281ef 100644
--- a/discovery.go
+++ b/discovery.go
@@ -36,6 +36,30 @@ type EntityCollectionResponse struct {
 	Extra              map[string]any     `json:"-"`
 }
 
+// MarshalJSON implements the json.Marshaler interface
+func (r EntityCollectionResponse) MarshalJSON() ([]byte, error) {
+	type Alias EntityCollectionResponse
+	explicitFields, err := json.Marshal(Alias(r))
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface
+func (r *EntityCollectionResponse) UnmarshalJSON(data []byte) error {
+	type Alias EntityCollectionResponse
+	rr := Alias(*r)
+
+	extra, err := unmarshalWithExtra(data, &rr)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	rr.Extra = extra
+	*r = EntityCollectionResponse(rr)
+	return nil
+}
+
 // CollectedEntity is a type describing a single collected entity
 type CollectedEntity struct {
 	EntityID    string         `json:"entity_id"`
-- 
2.43.0


From 6c610f8370f09ceb30490214849b2d119689865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:55 +0000
Subject: [PATCH 45/48] fix: keep the fraction of a second when decoding a
 duration

---
 unixtime/unixtime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 8011d4a..e19650d 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -66,7 +66,7 @@ func (d *DurationInSeconds) UnmarshalJSON(src []byte) error {
 	if err := json.Unmarshal(src, &f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
@@ -76,7 +76,7 @@ func (d *DurationInSeconds) UnmarshalYAML(value *yaml.Node) error {
 	if err := value.Decode(&f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
-- 
2.43.0


From 642c13e75cd7354dcfed2e88e8f1fd5c643fcc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:37 +0000
Subject: [PATCH 46/48] fix: encode times after the year 2262

---
 unixtime/unixtime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index e19650d..66f1f69 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -30,7 +30,8 @@ func (u Unixtime) MarshalJSON() ([]byte, error) {
 	if u.IsZero() {
 		return json.Marshal(0)
 	}
-	return json.Marshal(float64(u.UnixNano()) / 1e9)
+	// UnixNano does not cover all times, e.g. not those after the year 2262
+	return json.Marshal(float64(u.Unix()) + float64(u.Nanosecond())/1e9)
 }
 
 // Until returns the time.Duration from now until an Unixtime
-- 
2.43.0


From 57079ab924eeac4e9b113a022e52f2fa067e3e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:53 +0000
Subject: [PATCH 47/48] fix: compare host names of naming constraints
 regardless of case

---
 trustresolver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 7a84631..960b894 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -477,7 +477,9 @@ func matchNamingConstraint(constraint, id string) bool {
 	if err != nil {
 		return false
 	}
-	host := u.Hostname()
+	// host names are case-insensitive
+	host := strings.ToLower(u.Hostname())
+	constraint = strings.ToLower(constraint)
 	if strings.HasPrefix(constraint, ".") {
 		return strings.HasSuffix(host, constraint)
 	}
-- 
2.43.0


From 5c39b3155e2a1b115511727c19f75be7a43f23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:42 +0000
Subject: [PATCH 48/48] fix: token requests do not wait forever for the
 response

---
 authcode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index f32e451..550baf5 100644
--- a/authcode.go
+++ b/authcode.go
@@ -163,6 +163,9 @@ func (f FederationLeaf) GetAuthorizationURL(
 	return u.String(), nil
 }
 
+// tokenClient is used for token requests, it does not wait forever for the response
+var tokenClient = &http.Client{Timeout: 20 * time.Second}
+
 // CodeExchange performs an oidc code exchange it creates the mytoken and stores it in the database
 func (f FederationLeaf) CodeExchange(
 	issuer, code, redirectURI string,
@@ -188,7 +191,7 @@ func (f FederationLeaf) CodeExchange(
 	params.Set("client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
 	params.Set("client_assertion", string(clientAssertion))
 
-	res, err := http.PostForm(opMetadata.TokenEndpoint, params)
+	res, err := tokenClient.PostForm(opMetadata.TokenEndpoint, params)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0

