R = "trustresolver.go"
CASES = [
 # C01
 ("bug", "C01", R, "if !utils.Equal(aStmt.Issuer, aStmt.Subject, aID) ||", "if !utils.Equal(aStmt.Issuer, aID) ||"),
 ("bug", "C01", R, "subordinateStmt.Issuer != aID || subordinateStmt.Subject != t.Entity.Issuer", "subordinateStmt.Issuer != aID && subordinateStmt.Subject != t.Entity.Issuer"),
 ("bug", "C01", "internal/utils/utils.go", "		if v != vv {\n			return false", "		if v == vv {\n			return true"),
 ("bug", "C01", R, "|| subordinateStmt.Subject != t.Entity.Issuer ||", "|| subordinateStmt.Subject == \"\" ||"),
 ("same", "C01", R, "if subordinateStmt.Issuer != aID || subordinateStmt.Subject != t.Entity.Issuer || !subordinateStmt.TimeValid() {", "if !(subordinateStmt.Issuer == aID && subordinateStmt.Subject == t.Entity.Issuer && subordinateStmt.TimeValid()) {"),
 ("same", "C01", R, "	for i, aID := range t.Entity.AuthorityHints {\n", "	for i := 0; i < len(t.Entity.AuthorityHints); i++ {\n		aID := t.Entity.AuthorityHints[i]\n"),
 # C02
 ("bug", "C02", R, "utils.Equal(aStmt.Issuer, aStmt.Subject, aID) || !aStmt.TimeValid()", "utils.Equal(aStmt.Issuer, aStmt.Subject, aID) && !aStmt.TimeValid()"),
 ("bug", "C02", "unixtime/unixtime.go", "iat.After(now)", "iat.Before(now)"),
 ("bug", "C02", "unixtime/unixtime.go", "exp.Before(now)", "exp.Add(time.Hour).Before(now)"),
 ("bug", "C02", "entitystatement.go", "unixtime.VerifyTime(&e.IssuedAt, &e.ExpiresAt)", "unixtime.VerifyTime(nil, &e.ExpiresAt)"),
 ("same", "C02", "unixtime/unixtime.go", "iat.After(now)", "now.Before(iat.Time)"),
 # C03
 ("bug", "C03", R, "if !t.Entity.Verify(jwks) {", "if t.Subordinate == nil && !t.Entity.Verify(jwks) {"),
 ("bug", "C03", R, "		t.Authorities[iValid] = tt\n", "		t.Authorities[iValid] = t.Authorities[0]\n"),
 ("bug", "C03", R, "jwks := tt.Subordinate.JWKS", "jwks := tt.Entity.JWKS"),
 ("bug", "C03", R, "	for _, tt := range t.Authorities {\n		if !tt.verify", "	for i, tt := range t.Authorities {\n		tt := tt\n		_ = i\n		if !t.Authorities[i].verify"),
 ("bug", "C03", R, "t.Authorities = t.Authorities[:iValid]\n", "if iValid > 0 {\n		t.Authorities = t.Authorities[:iValid]\n	}\n"),
 ("bug", "C03", R, "	r.Resolve()\n	r.VerifySignatures()\n", "	r.VerifySignatures()\n	r.Resolve()\n"),
 ("same", "C03", R, "	iValid := 0\n	for _, tt := range t.Authorities {\n		if !tt.verify", "	iValid := 0\n	for i := range t.Authorities {\n		tt := t.Authorities[i]\n		if !tt.verify"),
 # C04
 ("bug", "C04", R, "*constraints.MaxPathLength < t.depth {", "*constraints.MaxPathLength <= t.depth {"),
 ("bug", "C04", R, "*constraints.MaxPathLength < t.depth {", "*constraints.MaxPathLength+1 < t.depth {"),
 ("bug", "C04", R, "depth:               t.depth + 1,", "depth:               t.depth,"),
 ("bug", "C04", R, "			if naming.Permitted == nil {\n				continue\n			}", "			if naming.Permitted == nil {\n				break\n			}"),
 ("bug", "C04", R, "				continue\n			}\n			internal.Log(\"naming constraint failed\")", "				break\n			}\n			internal.Log(\"naming constraint failed\")"),
 ("bug", "C04", R, "subordinates := t.subordinateIDs.Copy()", "subordinates := strset.New(t.Entity.Issuer)"),
 ("bug", "C04", R, "subordinates := t.subordinateIDs.Copy()", "subordinates := t.subordinateIDs"),
 ("bug", "C04", R, "if !t.checkConstraints(subordinateStmt.Constraints) {", "if !t.checkConstraints(aStmt.Constraints) {"),
 ("bug", "C04", R, "strings.HasPrefix(constraint, \".\")", "strings.Contains(constraint, \".\")"),
 ("bug", "C04", R, "strset.Difference(t.includedEntityTypes, allowed)", "strset.Difference(allowed, t.includedEntityTypes)"),
 ("bug", "C04", R, "strset.New(append(constraints.AllowedEntityTypes, \"federation_entity\")...)", "strset.New(append(constraints.AllowedEntityTypes, t.includedEntityTypes.List()...)...)"),
 ("bug", "C04", R, "if constraints.AllowedEntityTypes != nil {", "if len(constraints.AllowedEntityTypes) > 0 {"),
 ("bug", "C04", R, "entityTypes.Add(aStmt.Metadata.GuessEntityTypes()...)", "entityTypes.Add(t.Entity.Metadata.GuessEntityTypes()...)"),
 ("bug", "C04", R, "if naming := constraints.NamingConstraints; naming != nil {", "if naming := constraints.NamingConstraints; naming != nil && len(naming.Excluded) > 0 {"),
 ("same", "C04", R, "if constraints.MaxPathLength != nil && *constraints.MaxPathLength < t.depth {", "if maxLen := constraints.MaxPathLength; maxLen != nil && t.depth > *maxLen {"),
 ("same", "C04", R, "			if slices.ContainsFunc(\n				naming.Excluded, func(e string) bool {\n					return matchNamingConstraint(e, id)\n				},\n			) {", "			bad := false\n			for _, e := range naming.Excluded {\n				if matchNamingConstraint(e, id) {\n					bad = true\n					break\n				}\n			}\n			if bad {"),
 ("same", "C04", R, "	if constraints == nil {\n		return true\n	}\n	internal.Logf(\"checking constraints %+v...\", constraints)\n	if constraints.MaxPathLength", "	if constraints == nil {\n		return true\n	}\n	depthOK := func() bool { return constraints.MaxPathLength == nil || t.depth <= *constraints.MaxPathLength }\n	if !depthOK() {\n		return false\n	}\n	if constraints.MaxPathLength"),
 ("same", "C04", R, "		if subordinateStmt.ExpiresAt.Before(t.expiresAt.Time) {\n			t.expiresAt = subordinateStmt.ExpiresAt\n		}\n		entityTypes := t.includedEntityTypes.Copy()\n		entityTypes.Add(aStmt.Metadata.GuessEntityTypes()...)\n		subordinates := t.subordinateIDs.Copy()\n		subordinates.Add(aID)\n", "		subordinates := t.subordinateIDs.Copy()\n		subordinates.Add(aStmt.Subject)\n		entityTypes := strset.New(t.includedEntityTypes.List()...)\n		entityTypes.Add(aStmt.Metadata.GuessEntityTypes()...)\n		if subordinateStmt.ExpiresAt.Before(t.expiresAt.Time) {\n			t.expiresAt = subordinateStmt.ExpiresAt\n		}\n"),
 ("same", "C04", R, "		allowed := strset.New(append(constraints.AllowedEntityTypes, \"federation_entity\")...)\n", "		allowed := strset.New(constraints.AllowedEntityTypes...)\n		allowed.Add(\"federation_entity\")\n"),
 ("same", "C04", R, "	// host names are case-insensitive\n	host := strings.ToLower(u.Hostname())\n	constraint = strings.ToLower(constraint)\n	if strings.HasPrefix(constraint, \".\") {\n		return strings.HasSuffix(host, constraint)\n	}\n	return constraint == host\n", "	if host := strings.ToLower(u.Hostname()); strings.HasPrefix(constraint, \".\") {\n		return strings.HasSuffix(host, strings.ToLower(constraint))\n	} else if strings.EqualFold(constraint, host) {\n		return true\n	}\n	return false\n"),
 ("same", "C04", R, "	// host names are case-insensitive\n	host := strings.ToLower(u.Hostname())\n	constraint = strings.ToLower(constraint)\n	if strings.HasPrefix(constraint, \".\") {\n		return strings.HasSuffix(host, constraint)\n	}\n	return constraint == host\n", "	host, want := strings.ToUpper(u.Hostname()), strings.ToUpper(constraint)\n	if len(want) > 0 && want[0] == '.' {\n		return strings.HasSuffix(host, want)\n	}\n	return want == host\n"),
 ("bug", "C04", R, "	host := strings.ToLower(u.Hostname())\n", "	host := u.Hostname()\n"),
 ("bug", "C04", R, "	constraint = strings.ToLower(constraint)\n", ""),
 ("bug", "C04", R, "	host := strings.ToLower(u.Hostname())\n", "	host := strings.ToLower(u.Host)\n"),
 # C05
 ("bug", "C05", R, "		if t.subordinateIDs.Has(aID) {\n			// loop prevention\n			continue\n		}\n", "		if aID == t.Entity.Issuer {\n			// loop prevention\n			continue\n		}\n"),
 ("bug", "C05", R, "			// loop prevention\n			continue\n", "			// loop prevention\n			break\n"),
 ("bug", "C05", R, "		aStmt, err := GetEntityConfiguration(aID)\n		if err != nil {\n			continue\n", "		aStmt, err := GetEntityConfiguration(aID)\n		if err != nil {\n			return\n"),
 ("bug", "C05", R, "		subordinates := t.subordinateIDs.Copy()\n", "		subordinates := t.subordinateIDs\n"),
 ("bug", "C05", R, "		tt.resolve(anchors)\n		t.Authorities[i] = tt\n", "		tt.resolve(anchors[1:])\n		t.Authorities[i] = tt\n"),
 ("bug", "C05", R, "	if utils.SliceContains(t.Entity.Issuer, anchors.EntityIDs()) {\n		return\n	}", "	if t.Subordinate != nil && utils.SliceContains(t.Entity.Issuer, anchors.EntityIDs()) {\n		return\n	}"),
 ("bug", "C05", R, "		if subordinateStmt.Issuer != aID ||", "		if i > 5 || subordinateStmt.Issuer != aID ||"),
 ("bug", "C05", R, "range t.Entity.AuthorityHints {\n		if", "range t.Entity.AuthorityHints[1:] {\n		if"),
 ("same", "C05", R, "	if utils.SliceContains(t.Entity.Issuer, anchors.EntityIDs()) {\n		return\n	}", "	for _, a := range anchors {\n		if a.EntityID == t.Entity.Issuer {\n			return\n		}\n	}"),
 ("same", "C05", R, "	for i, aID := range t.Entity.AuthorityHints {\n", "	for i := 0; i < len(t.Entity.AuthorityHints); i++ {\n		aID := t.Entity.AuthorityHints[i]\n"),
 ("same", "C05", R, "		if t.subordinateIDs.Has(aID) {\n			// loop prevention\n			continue\n		}\n		aStmt, err := GetEntityConfiguration(aID)\n		if err != nil {\n			continue\n		}\n", "		var aStmt *EntityStatement\n		var err error\n		if !t.subordinateIDs.Has(aID) {\n			aStmt, err = GetEntityConfiguration(aID)\n		}\n		if err != nil || aStmt == nil {\n			continue\n		}\n"),
 ("same", "C05", R, "		tt.resolve(anchors)\n		t.Authorities[i] = tt\n", "		t.Authorities[i] = tt\n		(&t.Authorities[i]).resolve(anchors)\n"),
 # C06
 ("bug", "C06", R, "chains = append(chains, append(TrustChain{toAppend}, aChain...))", "chains = append(chains, append(aChain[:0:len(aChain)+0], append(TrustChain{toAppend}, aChain...)...))"),
 ("bug", "C06", R, "		for _, aChain := range a.chains() {\n			chains = append(chains, append(TrustChain{toAppend}, aChain...))\n		}", "		prefix := make(TrustChain, 0, 8)\n		prefix = append(prefix, toAppend)\n		for _, aChain := range a.chains() {\n			chains = append(chains, append(prefix, aChain...))\n		}"),
 ("bug", "C06", R, "		if toAppend == nil {\n			toAppend = t.Entity\n		}", "		if toAppend == nil || len(chains) > 0 {\n			toAppend = t.Entity\n		}"),
 ("bug", "C06", R, "		for _, aChain := range a.chains() {\n			chains", "		for _, aChain := range a.chains() {\n			if len(chains) > 1 {\n				break\n			}\n			chains"),
 ("bug", "C06", R, "				t.Subordinate,\n				t.Entity,\n", "				t.Entity,\n				t.Subordinate,\n"),
 ("bug", "C06", R, "	if t.Authorities == nil {\n		if t.Subordinate", "	if len(t.Authorities) == 0 {\n		if t.Subordinate"),
 ("same", "C06", R, "	for _, a := range t.Authorities {\n		toAppend := t.Subordinate\n		if toAppend == nil {\n			toAppend = t.Entity\n		}\n", "	toAppend := t.Subordinate\n	if t.Subordinate == nil {\n		toAppend = t.Entity\n	}\n	for i := range t.Authorities {\n		a := &t.Authorities[i]\n"),
 ("same", "C06", R, "			chains = append(chains, append(TrustChain{toAppend}, aChain...))", "			chain := make(TrustChain, 0, len(aChain)+1)\n			chain = append(chain, toAppend)\n			chain = append(chain, aChain...)\n			chains = append(chains, chain)"),
 ("same", "C06", R, "			chains = append(chains, append(TrustChain{toAppend}, aChain...))", "			chain := TrustChain{toAppend}\n			for _, s := range aChain {\n				chain = append(chain, s)\n			}\n			chains = append(chains, chain)"),
 ("same", "C06", R, "		for _, aChain := range a.chains() {\n			chains = append(chains, append(TrustChain{toAppend}, aChain...))\n		}", "		head := TrustChain{toAppend}\n		for _, aChain := range a.chains() {\n			chains = append(chains, append(head, aChain...))\n		}"),

 # C07
 ("bug", "C07", R, "		TAKeys:         taKeys,\n", ""),
 ("bug", "C07", R, "		Types:          r.Types,\n", "		Types:          r.Types[:0],\n"),
 ("bug", "C07", R, "		tas[i] = ta.EntityID\n", "		tas[0] = ta.EntityID\n"),
 ("bug", "C07", R, "	hash := sha3.Sum256(data)\n	return hash[:], nil", "	hash := sha3.Sum256(data)\n	return hash[:8], nil"),
 ("bug", "C07", R, "cache.Key(cache.KeyTrustTreeChains, string(hash)), chains,", "cache.Key(cache.KeyTrustTree, string(hash)), chains,"),
 ("bug", "C07", "cache/cache.go", "base64.URLEncoding.EncodeToString([]byte(subID)) + \":\" + base64.URLEncoding.EncodeToString([]byte(issID))", "subID + \":\" + issID + base64.URLEncoding.EncodeToString(nil)"),
 ("bug", "C07", "cache/cache.go", "base64.URLEncoding.EncodeToString([]byte(subID)) + \":\" + base64.URLEncoding.EncodeToString([]byte(issID))", "base64.URLEncoding.EncodeToString([]byte(subID))"),
 ("bug", "C07", "cache/cache.go", "return subsystem + \":\" + subkey", "return subsystem + \":\" + subkey[:16]"),
 ("bug", "C07", R, "	if !r.trustTree.signaturesVerified {\n		// only verified chains may be served from the cache\n		return\n	}\n", ""),
 ("bug", "C07", R, "	} else if set {\n		return chains\n	}\n	chains = r.trustTree.chains()", "	} else if set || len(chains) > 0 {\n		return chains\n	}\n	chains = r.trustTree.chains()"),
 ("bug", "C07", R, "	if err != nil {\n		set = false\n		internal.Log(err.Error())\n	}\n	if set {\n		internal.Log(\"Obtained", "	if err != nil {\n		internal.Log(err.Error())\n	}\n	if set {\n		internal.Log(\"Obtained"),
 ("bug", "C07", "trustchain.go", "	data, err := msgpack.Marshal(c)", "	data, err := msgpack.Marshal(c[:1])"),
 ("bug", "C07", R, "	set, err := cache.Get(cache.EntityStmtCacheKey(subID, issID), &stmt)\n	if err != nil {\n		internal.Log(err)\n		return nil\n	}", "	set, err := cache.Get(cache.EntityStmtCacheKey(subID, issID), &stmt)\n	if err != nil {\n		internal.Log(err)\n	}"),
 ("bug", "C07", R, "cache.EntityStmtCacheKey(subID, issID), stmt,", "cache.EntityStmtCacheKey(issID, subID), stmt,"),
 ("same", "C07", R, "	hash := sha3.Sum256(data)\n	return hash[:], nil", "	return hashOf(data), nil\n}\n\nfunc hashOf(data []byte) []byte {\n	h := sha3.Sum512(data)\n	return h[:]"),
 ("same", "C07", ("cache/cache.go", "return subsystem + \":\" + subkey", "return strings.Join([]string{subsystem, subkey}, \":\")"), ("cache/cache.go", "	\"log\"\n", "	\"log\"\n	\"strings\"\n")),
 ("same", "C07", R, "	tas := make([]string, len(r.TrustAnchors))\n	taKeys := make([]jwks.JWKS, len(r.TrustAnchors))\n	for i, ta := range r.TrustAnchors {\n		tas[i] = ta.EntityID\n		taKeys[i] = ta.JWKS\n	}\n", "	var tas []string\n	var taKeys []jwks.JWKS\n	for i := range r.TrustAnchors {\n		ta := &r.TrustAnchors[i]\n		tas = append(tas, ta.EntityID)\n		taKeys = append(taKeys, ta.JWKS)\n	}\n"),
 ("same", "C07", R, "	if !r.trustTree.signaturesVerified {\n		// only verified chains may be served from the cache\n		return\n	}\n	if err = r.cacheSetTrustChains(chains); err != nil {\n		internal.Log(err.Error())\n	}\n", "	if r.trustTree.signaturesVerified {\n		if err = r.cacheSetTrustChains(chains); err != nil {\n			internal.Log(err.Error())\n		}\n	}\n"),
 # C08
 ("bug", "C08", R, "cache.EntityStmtCacheKey(subID, issID), stmt, time.Until(stmt.ExpiresAt.Time),", "cache.EntityStmtCacheKey(subID, issID), stmt, time.Hour,"),
 ("bug", "C08", R, "cache.EntityStmtCacheKey(subID, issID), stmt, time.Until(stmt.ExpiresAt.Time),", "cache.EntityStmtCacheKey(subID, issID), stmt, stmt.ExpiresAt.Sub(stmt.IssuedAt.Time),"),
 ("bug", "C08", "trustchain.go", "		if e := c[i].ExpiresAt; e.Before(exp.Time) {\n			exp = e\n		}\n	}\n	return exp", "		if e := c[i].ExpiresAt; exp.Before(e.Time) {\n			exp = e\n		}\n	}\n	return exp"),
 ("bug", "C08", "trustchain.go", "for i := 1; i < len(c); i++ {\n		if e", "for i := 1; i < len(c)-1; i++ {\n		if e"),
 ("bug", "C08", "cache/cache.go", "	if duration <= 0 {\n		return nil\n	}\n", ""),
 ("bug", "C08", "cache/cache.go", "	if duration <= 0 {\n", "	if duration == 0 {\n"),
 ("bug", "C08", "cache/cache.go", "c.c.SetWithTTL(key, data, expiration)", "c.c.Set(key, data)"),
 ("bug", "C08", "cache/redis.go", "return c.client.Set(c.ctx, key, data, expiration).Err()", "return c.client.Set(c.ctx, key, data, redis.KeepTTL).Err()"),
 ("bug", "C08", R, "		if subordinateStmt.ExpiresAt.Before(t.expiresAt.Time) {\n			t.expiresAt", "		if t.expiresAt.Before(subordinateStmt.ExpiresAt.Time) {\n			t.expiresAt"),
 ("same", "C08", R, "cache.EntityStmtCacheKey(subID, issID), stmt, time.Until(stmt.ExpiresAt.Time),", "cache.EntityStmtCacheKey(subID, issID), stmt, stmt.ExpiresAt.Sub(time.Now()),"),
 ("same", "C08", "trustchain.go", "	exp := c[0].ExpiresAt\n	for i := 1; i < len(c); i++ {\n		if e := c[i].ExpiresAt; e.Before(exp.Time) {\n			exp = e\n		}\n	}\n	return exp", "	var exp unixtime.Unixtime\n	for i, stmt := range c {\n		if i == 0 || exp.After(stmt.ExpiresAt.Time) {\n			exp = stmt.ExpiresAt\n		}\n	}\n	return exp"),
 ("same", "C08", "cache/cache.go", "	if duration <= 0 {\n		return nil\n	}\n	return cacheCache.Set(key, value, duration)", "	if duration > 0 {\n		return cacheCache.Set(key, value, duration)\n	}\n	return nil"),

 # C09
 ("bug", "C09", "trustchain.go", "slices.Subtract(utils.MapKeys(critPolicies), OperatorOrder)", "slices.Subtract(OperatorOrder, utils.MapKeys(critPolicies))"),
 ("bug", "C09", "trustchain.go", "		for _, mpoc := range stmt.MetadataPolicyCrit {\n", "		if stmt.MetadataPolicy == nil {\n			continue\n		}\n		for _, mpoc := range stmt.MetadataPolicyCrit {\n"),
 ("bug", "C09", "trustchain.go", "	for i, stmt := range c {\n		metadataPolicies[i]", "	for i, stmt := range c[:len(c)-1] {\n		metadataPolicies[i]"),
 ("bug", "C09", "trustchain.go", "if len(unsupportedCritPolicies) > 0 {", "if len(unsupportedCritPolicies) > 1 {"),
 ("bug", "C09", "policyoperators.go", "	PolicyOperatorEssential,\n}\n\nvar operators", "	PolicyOperatorEssential,\n	\"regexp\",\n}\n\nvar operators"),
 ("same", "C09", "trustchain.go", "	unsupportedCritPolicies := slices.Subtract(utils.MapKeys(critPolicies), OperatorOrder)\n", "	var unsupportedCritPolicies []PolicyOperatorName\n	for p := range critPolicies {\n		if !utils.SliceContains(p, OperatorOrder) {\n			unsupportedCritPolicies = append(unsupportedCritPolicies, p)\n		}\n	}\n	_ = slices.Subtract[int]\n"),
 ("same", "C09", "trustchain.go", "		metadataPolicies[i] = stmt.MetadataPolicy\n		for _, mpoc := range stmt.MetadataPolicyCrit {\n			critPolicies[mpoc] = struct{}{}\n		}\n", "		metadataPolicies[i] = stmt.MetadataPolicy\n		for j := 0; j < len(stmt.MetadataPolicyCrit); j++ {\n			critPolicies[stmt.MetadataPolicyCrit[j]] = struct{}{}\n		}\n"),
 # C11
 ("bug", "C11", "policyoperators.go", "	PolicyOperatorValue,\n	PolicyOperatorAdd,\n	PolicyOperatorDefault,\n	PolicyOperatorOneOf,\n", "	PolicyOperatorAdd,\n	PolicyOperatorValue,\n	PolicyOperatorDefault,\n	PolicyOperatorOneOf,\n"),
 ("bug", "C11", "metadataPolicy.go", "		value, valueSet, err = operator.Apply(value, valueSet, policyValue, essential, pathInfo)\n", "		value, _, err = operator.Apply(value, valueSet, policyValue, essential, pathInfo)\n"),
 ("bug", "C11", "metadataPolicy.go", "		essential, _ = essentialV.(bool)\n", "		essential = essentialV != nil\n"),
 ("bug", "C11", "metadataPolicy.go", "		if err != nil {\n			return value, err\n		}\n	}\n	return value, nil\n", "		if err != nil && essential {\n			return value, err\n		}\n	}\n	return value, nil\n"),
 ("bug", "C11", "metadataPolicy.go", "		policyValue, ok := p[policyName]\n		if !ok {\n			continue\n		}\n		operator, found", "		policyValue, ok := p[policyName]\n		if !ok || policyValue == nil {\n			continue\n		}\n		operator, found"),
 ("same", "C11", "metadataPolicy.go", "	essentialV, ok := p[PolicyOperatorEssential]\n	essential := false\n	if ok {\n		essential, _ = essentialV.(bool)\n	}\n", "	essential, _ := p[PolicyOperatorEssential].(bool)\n"),
 ("same", "C11", "metadataPolicy.go", "	for _, policyName := range OperatorOrder {\n", "	for i := 0; i < len(OperatorOrder); i++ {\n		policyName := OperatorOrder[i]\n"),
 # C12
 ("bug", "C12", "policyoperators.go", "		return utils.ReflectSliceCast(policyValue, utils.Slicify(value)), true, nil\n	},\n	[]PolicyOperatorName{\n		PolicyOperatorAdd,", "		return utils.ReflectSliceCast(policyValue, utils.Slicify(value)), value != nil, nil\n	},\n	[]PolicyOperatorName{\n		PolicyOperatorAdd,"),
 ("bug", "C12", "policyoperators.go", "		newValue := utils.ReflectIntersect(v, p)\n", "		newValue := utils.ReflectUnion(v, p)\n"),
 ("bug", "C12", "policyoperators.go", "		if !utils.ReflectIsSupersetOf(v, p) {", "		if !utils.ReflectIsSubsetOf(v, p) {"),
 ("bug", "C12", "policyoperators.go", "		if !utils.ReflectSliceContains(value, p) {", "		if essential && !utils.ReflectSliceContains(value, p) {"),
 ("bug", "C12", "policyoperators.go", "if essential, eok := policyValue.(bool); eok && essential &&", "if essential, eok := policyValue.(bool); eok && essential && !valueSet &&"),
 ("bug", "C12", "policyoperators.go", "		if !valueSet && (value == nil || reflect.ValueOf(value).IsZero()) {", "		if value == nil || reflect.ValueOf(value).IsZero() {"),
 ("same", "C12", "policyoperators.go", "		if policyValue == nil {\n			return nil, false, nil\n		}\n", "		remove := policyValue == nil\n		if remove {\n			return nil, false, nil\n		}\n"),
 # C13
 ("bug", "C13", "policyoperators.go", "		return ab || bb, nil\n", "		return ab && bb, nil\n"),
 ("bug", "C13", "policyoperators.go", "		if !aok {\n			return bb, nil\n		}\n", "		if !aok {\n			return false, nil\n		}\n"),
 ("bug", "C13", "metadataPolicy.go", "	return out, out.Verify(pathInfo)\n", "	return out, nil\n"),
 ("bug", "C13", "metadataPolicy.go", "	for k, sv := range sub {\n		if _, found := out[k]; found {\n			continue\n		}\n		out[k] = sv\n	}\n", "	_ = sub\n"),
 ("bug", "C13", "metadataPolicy.go", "		if _, found := out[op]; found {\n			continue\n		}\n		out[op] = bv\n", "		out[op] = bv\n"),
 ("bug", "C13", "metadataPolicy.go", "	for i := 1; i < len(policies); i++ {\n		out, err = combineMetadataPolicy(out, policies[i], pathInfo)", "	for i := 1; i < len(policies); i++ {\n		out, err = combineMetadataPolicy(policies[0], policies[i], pathInfo)"),
 ("bug", "C13", "metadataPolicy.go", "		combined, err := operator.Merge(av, bv, pathInfo)\n", "		combined, err := operator.Merge(av, av, pathInfo)\n		_ = bv\n"),
 ("same", "C13", "metadataPolicy.go", "	for op, bv := range b {\n		if _, found := out[op]; found {\n			continue\n		}\n		out[op] = bv\n	}\n", "	for op, bv := range b {\n		if _, found := a[op]; !found {\n			out[op] = bv\n		}\n	}\n"),
 ("same", "C13", "metadataPolicy.go", "	for i := 1; i < len(policies); i++ {\n		out, err = combineMetadataPolicy(out, policies[i], pathInfo)\n", "	for _, p := range policies[1:] {\n		out, err = combineMetadataPolicy(out, p, pathInfo)\n"),
 ("same", "C13", "metadataPolicy.go", "	for k, pv := range parent {\n		sv, sFound := sub[k]\n		if !sFound {\n			out[k] = pv\n			continue\n		}\n		combined, err", "	for k, pv := range parent {\n		out[k] = pv\n	}\n	for k, pv := range parent {\n		sv, sFound := sub[k]\n		if !sFound {\n			continue\n		}\n		combined, err"),
 # C14
 ("bug", "C14", "policyverifiers.go", "	RegisterPolicyVerifier(policyVerifyAddInValue)\n", ""),
 ("bug", "C14", "policyverifiers.go", "	if !utils.ReflectIsSubsetOf(valueV, subsetV) {", "	if !utils.ReflectIsSubsetOf(subsetV, valueV) {"),
 ("bug", "C14", "metadataPolicy.go", "			return errors.Errorf(\n				\"policy operator '%s' in '%s' cannot be combined with these operators: %v\", opN,\n				pathInfo, notAllowed,\n			)\n", "			continue\n"),
 ("same", "C14", "policyoperators.go", "	[]PolicyOperatorName{\n		PolicyOperatorValue,\n		PolicyOperatorDefault,\n		PolicyOperatorEssential,\n	},\n", "	[]PolicyOperatorName{\n		PolicyOperatorValue,\n		PolicyOperatorDefault,\n		PolicyOperatorSubsetOf,\n		PolicyOperatorEssential,\n	},\n"),
 ("bug", "C14", "metadataPolicy.go", "	for _, v := range policyVerifiers {\n		if err := v(p, pathInfo); err != nil {\n			return err\n		}\n	}\n	return nil\n", "	var err error\n	for _, v := range policyVerifiers {\n		err = v(p, pathInfo)\n	}\n	return err\n"),
 ("same", "C14", "metadataPolicy.go", "	for _, v := range policyVerifiers {\n		if err := v(p, pathInfo); err != nil {\n			return err\n		}\n	}\n	return nil\n", "	var err error\n	for i := 0; i < len(policyVerifiers) && err == nil; i++ {\n		err = policyVerifiers[i](p, pathInfo)\n	}\n	return err\n"),
 ("same", "C14", "policyverifiers.go", "	if !subset || !superset {\n		return nil\n	}\n	if !utils.ReflectIsSubsetOf(supersetV, subsetV) {", "	if subset && superset && !utils.ReflectIsSupersetOf(subsetV, supersetV) {"),

 # C10
 ("bug", "C10", "metadataPolicy.go", "		ocEntries = append(ocEntries, p.OAuthClient)\n", "		ocEntries = append(ocEntries, p.RelyingParty)\n"),
 ("bug", "C10", "metadataPolicy.go", "	pr, err := CombineMetadataPolicy(\"oauth_resource\", prEntries...)\n	if err != nil {\n		return nil, err\n	}\n", "	pr, _ := CombineMetadataPolicy(\"oauth_resource\", prEntries...)\n"),
 ("bug", "C10", "metadataPolicy.go", "			extraEntries[k] = append(extraEntries[k], v)\n", "			extraEntries[k] = []MetadataPolicy{v}\n"),
 ("bug", "C10", "metadataPolicy.go", "		if p == nil {\n			continue\n		}\n		opEntries", "		if p == nil {\n			break\n		}\n		opEntries"),
 ("bug", "C10", "metadataPolicy.go", "		FederationEntity:         fed,\n		Extra:                    extra,\n", "		FederationEntity:         fed,\n"),
 ("bug", "C10", "trustchain.go", "	for i, stmt := range c {\n		metadataPolicies[i] = stmt.MetadataPolicy\n", "	for i, stmt := range c[:len(c)-1] {\n		if i == 2 { continue }\n		metadataPolicies[i] = stmt.MetadataPolicy\n"),
 ("same", "C10", "trustchain.go", "	for i, stmt := range c {\n		metadataPolicies[i] = stmt.MetadataPolicy\n", "	for i, stmt := range c {\n		if i > 0 && i < len(c)-1 {\n			metadataPolicies[i] = stmt.MetadataPolicy\n		}\n"),
 ("bug", "C10", "metadata.go", "		if f.IsNil() {\n			continue\n		}\n", "		if f.IsNil() {\n			break\n		}\n"),
 ("bug", "C10", "metadata.go", "				metadataToReturn = applied\n", "				metadataToReturn = metadata\n				_ = applied\n"),
 ("bug", "C10", "metadata.go", "			reflect.Indirect(reflect.ValueOf(out)).Field(i).Set(v.Field(i))\n			continue\n", "			continue\n"),
 ("bug", "C10", "metadata.go", "	if len(m.Extra) > 0 {\n		out.Extra", "	if len(m.Extra) > 0 && p.Extra != nil && len(m.Extra) == len(p.Extra) && false {\n		out.Extra"),
 ("same", "C10", "metadata.go", "		policy, policyOk := reflect.ValueOf(*p).Field(i).Interface().(MetadataPolicy)\n		if !policyOk || policy == nil {", "		pv := reflect.ValueOf(p).Elem().FieldByName(t.Field(i).Name)\n		policy, _ := pv.Interface().(MetadataPolicy)\n		if len(policy) == 0 && policy == nil {"),
 ("same", "C10", "metadataPolicy.go", "		opEntries = append(opEntries, p.OpenIDProvider)\n", "		if p.OpenIDProvider != nil {\n			opEntries = append(opEntries, p.OpenIDProvider)\n		}\n"),
 ("same", "C10", "metadata.go", "			if policy, ok := p.Extra[entityType]; ok {\n				// Found a policy for the entity type, so apply it\n				applied, err := applyPolicy(metadata, policy, entityType)\n				if err != nil {\n					return nil, err\n				}\n\n				metadataToReturn = applied\n			} else {\n				// No policy found, so copy the metadata into out\n				metadataToReturn = metadata\n			}\n", "			applied, err := applyPolicy(metadata, p.Extra[entityType], entityType)\n			if err != nil {\n				return nil, err\n			}\n			metadataToReturn = applied\n"),
 # C15
 ("bug", "C15", "internal/utils/slices.go", "	out = reflect.AppendSlice(reflect.MakeSlice(out.Type(), 0, out.Len()+bV.Len()), out)\n", ""),
 ("bug", "C15", "internal/utils/slices.go", "	return ReflectIsSubsetOf(as, bs) && ReflectIsSubsetOf(bs, as)\n", "	return ReflectIsSubsetOf(as, bs)\n"),
 ("bug", "C15", "internal/utils/slices.go", "		f, fok := a.(float64)\n		return fok && float64(i) == f\n", "		f, fok := a.(float64)\n		return fok && f != f && float64(i) == f\n"),
 ("bug", "C15", "internal/utils/slices.go", "	return ReflectIsSubsetOf(of, is)\n", "	return ReflectIsSubsetOf(is, of)\n"),
 ("bug", "C15", "internal/utils/slices.go", "	for i := 0; i < aV.Len(); i++ {\n		v := aV.Index(i)\n		if ReflectSliceContains(v.Interface(), bs) {", "	for i := 1; i < aV.Len(); i++ {\n		v := aV.Index(i)\n		if ReflectSliceContains(v.Interface(), bs) {"),
 ("same", "C15", "internal/utils/slices.go", "	for i := 0; i < sliceV.Len(); i++ {\n		if equal(v, sliceV.Index(i).Interface()) {\n			return true\n		}\n	}\n	return false\n", "	n := sliceV.Len()\n	found := false\n	for i := n - 1; i >= 0 && !found; i-- {\n		found = equal(sliceV.Index(i).Interface(), v)\n	}\n	return found\n"),
 ("same", "C15", "internal/utils/slices.go", "	return ReflectIsSubsetOf(as, bs) && ReflectIsSubsetOf(bs, as)\n", "	for i := 0; i < aV.Len(); i++ {\n		if !ReflectSliceContains(aV.Index(i).Interface(), bs) {\n			return false\n		}\n	}\n	return ReflectIsSupersetOf(as, bs)\n"),
 # C16
 ("bug", "C16", "metadata.go", "wasSet[t.Field(i).Name], fmt", "wasSet[j], fmt"),
 ("bug", "C16", "metadata.go", "		if !rV.IsValid() {\n			f.SetZero()\n			continue\n		}\n", "		if !rV.IsValid() {\n			continue\n		}\n"),
 ("bug", "C16", "metadata.go", "		delete(otherClaims, j)\n", ""),
 ("bug", "C16", "metadata.go", "		if !rV.Type().AssignableTo(f.Type()) {", "		if false && !rV.Type().AssignableTo(f.Type()) {"),
 ("bug", "C16", "metadata.go", "	out := make(map[string]any, len(claims))\n	for k, v := range claims {\n		out[k] = v\n	}\n", "	out := claims\n	if out == nil {\n		out = make(map[string]any)\n	}\n"),
 ("bug", "C16", "metadata.go", "		current, set := claims[k]\n		value, err := p.ApplyTo(current, set,", "		current := claims[k]\n		value, err := p.ApplyTo(current, len(claims) > 0,"),
 ("bug", "C16", "metadata.go", "		j = strings.TrimSuffix(j, \",omitempty\")\n		delete", "		j = strings.TrimRight(j, \",omitempty\")\n		delete"),
 ("bug", "C40", "metadata_generated.go", "	SubjectType                           string         `json:\"subject_type,omitempty\"`", "	SubjectType                           string         `json:\"subject_types_supported,omitempty\"`"),
 ("same", "C16", "metadata.go", "		if value == nil {\n			delete(out, k)\n		} else {\n			out[k] = value\n		}\n", "		delete(out, k)\n		if value != nil {\n			out[k] = value\n		}\n"),
 ("same", "C16", "metadata.go", "		f := reflect.Indirect(v).Field(i)\n", "		f := v.Elem().FieldByName(t.Field(i).Name)\n"),
 ("same", "C16", "metadata.go", "		j = strings.TrimSuffix(j, \",omitempty\")\n		delete(otherClaims, j)\n		p, ok := policy[j]\n		if !ok {\n			continue\n		}\n", "		if comma := strings.Index(j, \",\"); comma >= 0 {\n			j = j[:comma]\n		}\n		p, ok := otherClaims[j]\n		if !ok {\n			continue\n		}\n		delete(otherClaims, j)\n"),

 # C17
 ("bug", "C17", "trustmark.go", "	if !m.VerifyType(oidfedconst.JWTTypeTrustMarkDelegation) {", "	if !m.VerifyType(oidfedconst.JWTTypeTrustMark) {"),
 ("bug", "C17", "metadata_resolver.go", "	if !r.VerifyType(oidfedconst.JWTTypeResolveResponse) {", "	if len(body) == 0 && !r.VerifyType(oidfedconst.JWTTypeResolveResponse) {"),
 ("bug", "C17", "internal/jwx/jws.go", "		if !typSet || headerTyp != typ {", "		if typSet && headerTyp != typ {"),
 ("bug", "C17", "internal/jwx/jws.go", "	for _, signature := range p.Signatures() {", "	for _, signature := range p.Signatures()[:1] {"),
 ("bug", "C17", "oidfedconst/constants.go", '"trust-mark+jwt"', '"trustmark+jwt"'),
 ("bug", "C17", "jwtsigning.go", "	return s.GeneralJWTSigner.JWT(i, oidfedconst.JWTTypeTrustMarkDelegation)", "	return s.GeneralJWTSigner.JWT(i, oidfedconst.JWTTypeTrustMark)"),
 ("bug", "C17", "jwtsigning.go", "	return &TrustMarkSigner{s}", "	return &TrustMarkSigner{&GeneralJWTSigner{key: s.key}}"),
 ("bug", "C17", "internal/jwx/jws.go", "	if headers == nil {\n", "	if headers != nil {\n"),
 ("bug", "C17", "internal/jwx/jws.go", "	if err := headers.Set(jws.TypeKey, typ); err != nil {\n		return nil, err\n	}\n", "	_ = headers.Set(jws.ContentTypeKey, typ)\n"),
 ("same", "C17", "trustmark.go", "	if !m.VerifyType(oidfedconst.JWTTypeTrustMark) {\n		return nil, errors.Errorf(\"trustmark jwt does not have '%s' JWT type\", oidfedconst.JWTTypeTrustMark)\n	}\n	t := &TrustMark{jwtMsg: m}\n	if err = json.Unmarshal(m.Payload(), t); err != nil {\n		return nil, err\n	}\n	return t, nil\n", "	if m.VerifyType(oidfedconst.JWTTypeTrustMark) {\n		var t TrustMark\n		t.jwtMsg = m\n		err = json.Unmarshal(m.Payload(), &t)\n		if err == nil {\n			return &t, nil\n		}\n		return nil, err\n	}\n	return nil, errors.Errorf(\"trustmark jwt does not have '%s' JWT type\", oidfedconst.JWTTypeTrustMark)\n"),
 ("same", "C17", "internal/jwx/jws.go", "	for _, signature := range p.Signatures() {\n		headerTyp, typSet := signature.ProtectedHeaders().Type()\n		if !typSet || headerTyp != typ {\n			return false\n		}\n	}\n	return true\n", "	ok := true\n	sigs := p.Signatures()\n	for i := 0; i < len(sigs) && ok; i++ {\n		t, set := sigs[i].ProtectedHeaders().Type()\n		ok = set && t == typ\n	}\n	return ok\n"),
 ("same", "C17", "internal/jwx/jws.go", "	headers := jws.NewHeaders()\n	if err := headers.Set(jws.TypeKey, typ); err != nil {\n		return nil, err\n	}\n	return SignPayload", "	headers := jws.NewHeaders()\n	err := headers.Set(jws.TypeKey, typ)\n	if err != nil {\n		return nil, err\n	}\n	return SignPayload"),
 # C18
 ("bug", "C18", "internal/jwx/jws.go", "		RawJWT:  data,\n", "		RawJWT:  append([]byte(nil), data[:len(data)-1]...),\n"),
 ("bug", "C18", "internal/jwx/jws.go", "	if keys.Set == nil || keys.Len() == 0 {\n", "	if keys.Set == nil || keys.Len() == 0 {\n		return p.Payload(), nil\n	}\n	if keys.Set == nil {\n"),
 ("bug", "C18", "entitystatement.go", "	return err == nil\n}\n\ntype entityStatementExported", "	return err == nil || e.SourceEndpoint != \"\"\n}\n\ntype entityStatementExported"),
 ("bug", "C18", "entitystatement.go", "	e.jwtMsg = &ee.JWTMsg\n", "	if e.jwtMsg == nil {\n		e.jwtMsg = &ee.JWTMsg\n	}\n"),
 ("bug", "C18", "internal/jwx/jws.go", "jws.WithInferAlgorithmFromKey(true)", "jws.WithInferAlgorithmFromKey(false)"),
 ("bug", "C18", "internal/jwx/jws.go", "	*p = *pp\n	return nil\n", "	p.Message = pp.Message\n	p.RawJWT = data\n	return nil\n"),
 ("bug", "C18", "trustmark.go", "	d := &DelegationJWT{jwtMsg: m}\n", "	d := &DelegationJWT{}\n"),
 ("bug", "C18", "trustmark.go", "	t := &TrustMark{jwtMsg: m}\n	if err = json.Unmarshal(m.Payload(), t); err != nil {\n		return nil, err\n	}\n", "	t := &TrustMark{jwtMsg: m}\n	_ = json.Unmarshal(m.Payload(), t)\n"),
 ("same", "C18", "entitystatement.go", "	_, err := e.jwtMsg.VerifyWithSet(keys)\n	if err != nil {\n		internal.Log(err)\n	}\n	return err == nil\n", "	if _, err := e.jwtMsg.VerifyWithSet(keys); err != nil {\n		internal.Log(err)\n		return false\n	}\n	return true\n"),
 ("same", "C18", "internal/jwx/jws.go", "	return jws.Verify(p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)))\n", "	opt := jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true))\n	payload, err := jws.Verify(p.RawJWT, opt)\n	if err != nil {\n		return nil, err\n	}\n	return payload, nil\n"),
 ("same", "C18", "internal/jwx/jws.go", "	m, err := jws.Parse(data)\n	return &ParsedJWT{\n		RawJWT:  data,\n		Message: m,\n	}, errors.WithStack(err)\n", "	p := new(ParsedJWT)\n	var err error\n	p.RawJWT = data\n	if p.Message, err = jws.Parse(data); err != nil {\n		return nil, errors.WithStack(err)\n	}\n	return p, nil\n"),

 # C19
 ("bug", "C19", "trustmark.go", "			if !slices.Contains(tmis, tm.Issuer) {", "			if len(tmis) > 1 && !slices.Contains(tmis, tm.Issuer) {"),
 ("bug", "C19", "trustmark.go", "			if !slices.Contains(tmis, tm.Issuer) {", "			if !slices.Contains(tmis, tm.Subject) {"),
 ("bug", "C19", "trustmark.go", "	if trustMarkIssuer == ta.Subject {", "	if trustMarkIssuer != \"\" {"),
 ("bug", "C19", "trustmark.go", "		TrustAnchor: []string{ta.Subject},\n	}\n	var res", "		TrustAnchor: []string{trustMarkIssuer},\n	}\n	var res"),
 ("bug", "C19", "trustmark.go", "	if err != nil {\n		err = errors.Wrap(err, \"error while resolving trust mark issuer\")\n		return\n	}\n", "	if err != nil {\n		err = nil\n	}\n"),
 ("bug", "C19", "trustmark.go", "ParseEntityStatement(res.TrustChain[0].RawJWT)", "ParseEntityStatement(res.TrustChain[len(res.TrustChain)-1].RawJWT)"),
 ("bug", "C19", "trustmark.go", "	if !tmoFound {\n", "	if !tmoFound || tm.DelegationJWT == \"\" {\n"),
 ("bug", "C19", "trustmark.go", "	tmo, tmoFound := ta.TrustMarkOwners[tm.TrustMarkType]", "	tmo, tmoFound := ta.TrustMarkOwners[tm.Issuer]"),
 ("bug", "C19", "trustmark.go", "	return tm.VerifyExternal(jwks, tmo)\n}", "	return tm.VerifyExternal(tmo.JWKS, tmo)\n}"),
 ("same", "C19", "trustmark.go", "	if ta.TrustMarkIssuers != nil {\n		if tmis, found := ta.TrustMarkIssuers[tm.TrustMarkType]; found {\n			if !slices.Contains(tmis, tm.Issuer) {\n				return errors.New(\"verify trustmark: trust mark issuer is not allowed by trust anchor\")\n			}\n		}\n	}\n", "	if tmis, found := ta.TrustMarkIssuers[tm.TrustMarkType]; found {\n		allowed := slices.ContainsFunc(tmis, func(i string) bool { return i == tm.Issuer })\n		if !allowed {\n			return errors.New(\"verify trustmark: trust mark issuer is not allowed by trust anchor\")\n		}\n	}\n"),
 ("same", "C19", "trustmark.go", "	tmo, tmoFound := ta.TrustMarkOwners[tm.TrustMarkType]\n	if !tmoFound {\n		// no delegation\n		return tm.VerifyExternal(jwks)\n	}\n	return tm.VerifyExternal(jwks, tmo)\n", "	var owners []TrustMarkOwnerSpec\n	if tmo, ok := ta.TrustMarkOwners[tm.TrustMarkType]; ok {\n		owners = append(owners, tmo)\n	}\n	return tm.VerifyExternal(jwks, owners...)\n"),
 ("same", "C19", "trustmark.go", "	if trustMarkIssuer == ta.Subject {\n		jwks = ta.JWKS\n		return\n	}\n\n	resolveRequest := apimodel.ResolveRequest{\n		Subject:     trustMarkIssuer,\n		TrustAnchor: []string{ta.Subject},\n	}\n", "	anchorID := ta.Subject\n	if anchorID == trustMarkIssuer {\n		return ta.JWKS, nil\n	}\n	var resolveRequest apimodel.ResolveRequest\n	resolveRequest.Subject = trustMarkIssuer\n	resolveRequest.TrustAnchor = append(resolveRequest.TrustAnchor, anchorID)\n"),
 # C20
 ("bug", "C20", "trustmark.go", "	if delegation.TrustMarkType != tm.TrustMarkType {", "	if delegation.TrustMarkType != \"\" && delegation.TrustMarkType != tm.TrustMarkType {"),
 ("bug", "C20", "trustmark.go", "	if delegation.Subject != tm.Issuer {", "	if delegation.Subject != tm.Subject {"),
 ("bug", "C20", "trustmark.go", "	if delegation == nil {\n		return errors.New(\"verify trustmark: no delegation jwt in trust mark\")\n	}", "	if delegation == nil {\n		return nil\n	}"),
 ("bug", "C20", "trustmark.go", "	return delegation.VerifyExternal(tmo[0].JWKS)", "	return delegation.VerifyExternal(jwks)"),
 ("bug", "C20", "trustmark.go", "	if err := unixtime.VerifyTime(&djwt.IssuedAt, djwt.ExpiresAt); err != nil {\n		return errors.Wrap(err, \"verify delegation jwt\")\n	}\n	_, err := djwt.jwtMsg.VerifyWithSet(jwks)", "	_, err := djwt.jwtMsg.VerifyWithSet(jwks)"),
 ("bug", "C20", "trustmark.go", "	if err := unixtime.VerifyTime(&tm.IssuedAt, tm.ExpiresAt); err != nil {", "	if err := unixtime.VerifyTime(&tm.IssuedAt, nil); err != nil {"),
 ("bug", "C20", "trustmark.go", "	if !ok {\n		return errors.New(\"verify delegation jwt: unknown trust mark owner\")\n	}\n	_, err := djwt", "	if !ok {\n		return nil\n	}\n	_, err := djwt"),
 ("same", "C20", "trustmark.go", "	if err := unixtime.VerifyTime(&djwt.IssuedAt, djwt.ExpiresAt); err != nil {\n		return errors.Wrap(err, \"verify delegation jwt\")\n	}\n	owner, ok := ta.TrustMarkOwners[djwt.TrustMarkType]\n	if !ok {\n		return errors.New(\"verify delegation jwt: unknown trust mark owner\")\n	}\n	_, err := djwt.jwtMsg.VerifyWithSet(owner.JWKS)\n	return errors.Wrap(err, \"verify delegation jwt\")\n", "	owner, ok := ta.TrustMarkOwners[djwt.TrustMarkType]\n	if !ok {\n		return errors.New(\"verify delegation jwt: unknown trust mark owner\")\n	}\n	return djwt.VerifyExternal(owner.JWKS)\n"),
 ("same", "C20", "trustmark.go", "	if delegation.TrustMarkType != tm.TrustMarkType {\n		return errors.New(\"verify trustmark: delegation jwt not for this trust mark\")\n	}\n	if delegation.Subject != tm.Issuer {\n		return errors.New(\"verify trustmark: delegation jwt not for this trust mark issuer\")\n	}\n	if delegation.Issuer != tmo[0].ID {\n		return errors.New(\"verify trustmark: delegation jwt not issued by trust mark owner\")\n	}\n	return delegation.VerifyExternal(tmo[0].JWKS)\n", "	switch owner := tmo[0]; {\n	case delegation.Issuer != owner.ID:\n		return errors.New(\"verify trustmark: delegation jwt not issued by trust mark owner\")\n	case delegation.Subject != tm.Issuer || delegation.TrustMarkType != tm.TrustMarkType:\n		return errors.New(\"verify trustmark: delegation jwt not for this trust mark\")\n	default:\n		return delegation.VerifyExternal(owner.JWKS)\n	}\n"),
 # C21
 ("bug", "C21", "trustmark.go", "		if err := tm.VerifyFederation(ta); err == nil {\n", "		if err := tm.VerifyFederation(ta); err == nil || tm.trustmark != nil && tm.trustmark.Ref != \"\" {\n"),
 ("bug", "C21", "trustmark.go", "		if err := tm.VerifyExternal(jwks, tmo...); err == nil {\n			verified = append(verified, tm)\n		}\n", "		if err := tm.VerifyExternal(jwks, tmo...); err != nil {\n			break\n		}\n		verified = append(verified, tm)\n"),
 ("bug", "C21", "trustmark.go", "	return mark.VerifyExternal(jwks, tmo...)\n", "	return mark.VerifyExternal(jwks)\n"),
 ("bug", "C21", "trustmark.go", "	if tm.trustmark == nil || tm.trustmark.jwtMsg == nil {", "	if tm.trustmark == nil {"),
 ("bug", "C21", "trustmark.go", "mark.Subject == entityID {", "mark.Subject != \"\" {"),
 ("bug", "C21", "metadata_resolver.go", "		&chain[len(chain)-1].EntityStatementPayload,\n", "		&chain[0].EntityStatementPayload,\n"),
 ("bug", "C21", "trustmark.go", "	if mark.TrustMarkType != tm.TrustMarkType {\n		return errors.Errorf(\"trust mark object claim 'trust_mark_type' does not match JWT claim\")\n	}\n	return mark.VerifyFederation(ta)\n", "	return mark.VerifyFederation(ta)\n"),
 ("same", "C21", "trustmark.go", "	for _, tm := range tms {\n		if err := tm.VerifyFederation(ta); err == nil {\n			verified = append(verified, tm)\n		}\n	}\n	return\n", "	for i := range tms {\n		tm := tms[i]\n		if tm.VerifyFederation(ta) != nil {\n			continue\n		}\n		verified = append(verified, tm)\n	}\n	return verified\n"),
 ("same", "C21", "trustmark.go", "	if mark.TrustMarkType != tm.TrustMarkType {\n		return errors.Errorf(\"trust mark object claim 'trust_mark_type' does not match JWT claim\")\n	}\n	return mark.VerifyFederation(ta)\n", "	if mark.TrustMarkType == tm.TrustMarkType {\n		err = mark.VerifyFederation(ta)\n		return err\n	}\n	return errors.Errorf(\"trust mark object claim 'trust_mark_type' does not match JWT claim\")\n"),
 ("same", "C21", "metadata_resolver.go", "	res.TrustMarks = chain[0].TrustMarks.issuedTo(chain[0].Subject).VerifiedFederation(\n		&chain[len(chain)-1].EntityStatementPayload,\n	)\n", "	leaf, anchor := chain[0], chain[len(chain)-1]\n	verified := leaf.TrustMarks.VerifiedFederation(&anchor.EntityStatementPayload)\n	res.TrustMarks = verified.issuedTo(leaf.Subject)\n"),

 # C22
 ("bug", "C22", "trustmark.go", "	if lf != 0 {\n		tm.ExpiresAt", "	if spec.Lifetime.Duration != 0 {\n		tm.ExpiresAt"),
 ("bug", "C22", "trustmark.go", "		Subject:       sub,\n		TrustMarkType: spec.TrustMarkType,\n", "		Subject:       tmi.EntityID,\n		TrustMarkType: spec.TrustMarkType,\n"),
 ("bug", "C22", "trustmark.go", "		DelegationJWT: spec.DelegationJWT,\n		Extra:         spec.Extra,\n", "		Extra:         spec.Extra,\n"),
 ("bug", "C22", "trustmark.go", "	if len(lifetime) > 0 {\n		lf = lifetime[0]\n	}\n	if lf != 0 {\n		tm.", "	if len(lifetime) > 0 && lf == 0 {\n		lf = lifetime[0]\n	}\n	if lf != 0 {\n		tm."),
 ("bug", "C22", "trustmark.go", "	if spec.IncludeExtraClaimsInInfo {\n", "	if spec.IncludeExtraClaimsInInfo || len(spec.Extra) > 0 {\n"),
 ("bug", "C22", "trustmark.go", "		trustMarks[tms.ID] = tms\n	}\n", "		if tms.DelegationLifetime > 0 {\n			trustMarks[tms.ID] = tms\n		}\n	}\n"),
 ("bug", "C22", "trustmark.go", "	jwt, err := tmi.TrustMarkSigner.JWT(tm)\n", "	jwt, err := tmi.TrustMarkSigner.GeneralJWTSigner.JWT(tm, oidfedconst.JWTTypeTrustMarkDelegation)\n"),
 ("bug", "C22", "trustmark.go", "	jwt, err := tmi.TrustMarkSigner.JWT(tm)\n	if err != nil {\n		return nil, err\n	}\n", "	jwt, _ := tmi.TrustMarkSigner.JWT(tm)\n"),
 ("bug", "C22", "trustmark.go", "	spec, ok := tmi.trustMarks[trustMarkType]\n	if !ok {", "	spec, ok := tmi.trustMarks[trustMarkType]\n	if !ok && trustMarkType == \"\" {"),
 ("bug", "C22", "trustmark.go", "		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}", "		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf * 60)}"),
 ("same", "C22", ("trustmark.go", "	lf := spec.Lifetime.Duration\n	if len(lifetime) > 0 {\n		lf = lifetime[0]\n	}\n	if lf != 0 {\n		tm.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}\n	}\n	jwt, err := tmi.TrustMarkSigner.JWT(tm)\n", "	tm.ExpiresAt = expiryFor(tm.IssuedAt, spec.Lifetime.Duration, lifetime)\n	jwt, err := tmi.TrustMarkSigner.JWT(tm)\n"), ("trustmark.go", "// AddTrustMark adds a TrustMarkSpec", "func expiryFor(iat unixtime.Unixtime, lf time.Duration, custom []time.Duration) *unixtime.Unixtime {\n	for i := range custom {\n		if i == 0 {\n			lf = custom[i]\n		}\n	}\n	if lf == 0 {\n		return nil\n	}\n	return &unixtime.Unixtime{Time: iat.Add(lf)}\n}\n\n// AddTrustMark adds a TrustMarkSpec")),
 ("same", "C22", "trustmark.go", "	trustMarks := make(map[string]TrustMarkSpec, len(trustMarkSpecs))\n	for _, tms := range trustMarkSpecs {\n		trustMarks[tms.TrustMarkType] = tms\n	}\n	return &TrustMarkIssuer{\n		EntityID:        entityID,\n		TrustMarkSigner: signer,\n		trustMarks:      trustMarks,\n	}\n", "	tmi := &TrustMarkIssuer{\n		EntityID:        entityID,\n		TrustMarkSigner: signer,\n		trustMarks:      map[string]TrustMarkSpec{},\n	}\n	for i := range trustMarkSpecs {\n		tmi.AddTrustMark(trustMarkSpecs[i])\n	}\n	return tmi\n"),
 ("same", "C22", "trustmark.go", "	return tmo.TrustMarkDelegationSigner.JWT(delegation)\n", "	signed, err := tmo.JWT(*delegation)\n	if err != nil {\n		return nil, err\n	}\n	return signed, nil\n"),
 # C23
 ("bug", "C23", "trustmark_refresher.go", "	if tm.TrustMarkType != c.TrustMarkType || tm.Subject != c.sub {", "	if tm.TrustMarkType != c.TrustMarkType && tm.Subject != c.sub {"),
 ("bug", "C23", "trustmark_refresher.go", "	if exp != nil {\n		c.expiration = *exp\n	} else {\n		c.expiration = unixtime.Unixtime{}\n	}", "	if exp != nil {\n		c.expiration = *exp\n	}"),
 ("bug", "C23", "trustmark_refresher.go", "	if jwt != \"\" && expiration.IsZero() {\n		// does not expire\n		return jwt, nil\n	}\n", ""),
 ("bug", "C23", "trustmark_refresher.go", "	if errRes != nil {\n		return errRes.Err()\n	}\n	tm, err", "	if errRes != nil && errRes.Status >= 500 {\n		return errRes.Err()\n	}\n	tm, err"),
 ("bug", "C23", "trustmark_refresher.go", "	err := c.refresh()\n	jwt, _ = c.current()\n	return jwt, err", "	err := c.refresh()\n	return jwt, err"),
 ("bug", "C23", "trustmark_refresher.go", "	c.lastTried = unixtime.Now()\n	return true", "	return true"),
 ("bug", "C23", "trustmark_refresher.go", "		if unixtime.Until(expiration) < c.RefreshGracePeriod.Duration {", "		if unixtime.Until(expiration) < c.MinLifetime.Duration {"),
 ("bug", "C23", "trustmark_refresher.go", "	if c.TrustMarkIssuer == c.sub {\n		endpoint", "	if c.TrustMarkIssuer == c.sub || c.ownTrustMarkEndpoint != \"\" {\n		endpoint"),
 ("bug", "C23", "trustmark_refresher.go", "	params.Add(\"sub\", c.sub)", "	params.Add(\"sub\", c.TrustMarkIssuer)"),
 ("bug", "C23", "trustmark_refresher.go", "	c.Refresh = true\n	if c.SelfIssued {", "	if c.SelfIssued {\n		c.Refresh = true"),
 ("bug", "C23", "trustmark_refresher.go", "		c.expiration = unixtime.Unixtime{Time: exp}\n", "		_ = exp\n"),
 ("bug", "C23", "trustmark_refresher.go", "jwt.ParseInsecure([]byte", "jwt.Parse([]byte"),
 ("bug", "C23", "trustmark_refresher.go", "		c.SelfIssuanceSpec.TrustMarkType = c.TrustMarkType\n", ""),
 ("bug", "C23", "trustmark_refresher.go", "	if c.RefreshGracePeriod.Duration == 0 {", "	if c.RefreshGracePeriod.Duration < time.Hour {"),
 ("bug", "C23", "trustmark_refresher.go", "	if jwt != \"\" && unixtime.Until(expiration) > c.MinLifetime.Duration {", "	if jwt != \"\" && unixtime.Until(expiration) > 0 {"),
 ("bug", "C23", "trustmark_refresher.go", "		c.replace(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)\n", "		c.replace(tmi.TrustMarkJWT, nil)\n"),
 ("same", "C23", "trustmark_refresher.go", "	if jwt != \"\" && expiration.IsZero() {\n		// does not expire\n		return jwt, nil\n	}\n	if jwt != \"\" && unixtime.Until(expiration) > c.MinLifetime.Duration {\n		if unixtime.Until(expiration) < c.RefreshGracePeriod.Duration {\n			go c.refresh()\n		}\n		return jwt, nil\n	}\n	err := c.refresh()\n	jwt, _ = c.current()\n	return jwt, err", "	if jwt != \"\" {\n		if expiration.IsZero() {\n			return jwt, nil\n		}\n		remaining := time.Until(expiration.Time)\n		if remaining > c.MinLifetime.Duration {\n			if c.RefreshGracePeriod.Duration > remaining {\n				go func() { _ = c.refresh() }()\n			}\n			return jwt, nil\n		}\n	}\n	if err := c.refresh(); err != nil {\n		return jwt, err\n	}\n	jwt, _ = c.current()\n	return jwt, nil"),
 ("same", "C23", "trustmark_refresher.go", "	params := url.Values{}\n	params.Add(\"trust_mark_type\", c.TrustMarkType)\n	params.Add(\"sub\", c.sub)\n", "	params := url.Values{\n		\"sub\":             {c.sub},\n		\"trust_mark_type\": []string{c.TrustMarkType},\n	}\n"),
 ("same", "C23", ("trustmark_refresher.go", "	var endpoint string\n	if c.TrustMarkIssuer == c.sub {\n		endpoint = c.ownTrustMarkEndpoint\n	} else {\n		tmi, err := GetEntityConfiguration(c.TrustMarkIssuer)\n		if err != nil {\n			return err\n		}\n		if tmi.Metadata == nil || tmi.Metadata.FederationEntity == nil || tmi.Metadata.\n			FederationEntity.FederationTrustMarkEndpoint == \"\" {\n			return errors.New(\"could not obtain trust mark endpoint of trust mark issuer\")\n		}\n		endpoint = tmi.Metadata.FederationEntity.FederationTrustMarkEndpoint\n	}\n", "	endpoint, err := c.endpoint()\n	if err != nil {\n		return err\n	}\n"), ("trustmark_refresher.go", "// mayTry checks", "// endpoint finds the endpoint\nfunc (c *EntityConfigurationTrustMarkConfig) endpoint() (string, error) {\n	if c.sub == c.TrustMarkIssuer {\n		return c.ownTrustMarkEndpoint, nil\n	}\n	conf, err := GetEntityConfiguration(c.TrustMarkIssuer)\n	if err != nil {\n		return \"\", err\n	}\n	if m := conf.Metadata; m != nil && m.FederationEntity != nil {\n		if e := m.FederationEntity.FederationTrustMarkEndpoint; len(e) > 0 {\n			return e, nil\n		}\n	}\n	return \"\", errors.New(\"could not obtain trust mark endpoint of trust mark issuer\")\n}\n\n// mayTry checks")),
 ("same", "C23", "trustmark_refresher.go", "	if c.TrustMarkType == \"\" || c.TrustMarkIssuer == \"\" {\n		return errors.New(\"either trust_mark_jwt or trust_mark_issuer and trust_mark_type must be specified\")\n	}\n	return nil\n", "	if c.TrustMarkType != \"\" && c.TrustMarkIssuer != \"\" {\n		return nil\n	}\n	return errors.New(\"either trust_mark_jwt or trust_mark_issuer and trust_mark_type must be specified\")\n"),
 ("same", "C23", "trustmark_refresher.go", "		c.expiration = unixtime.Unixtime{Time: exp}\n", "		c.expiration.Time = exp\n"),
 # C24
 ("bug", "C24", "trustchainfilter.go", "			return scored[i].score < scored[j].score", "			return scored[i].score > scored[j].score"),
 ("bug", "C24", "trustchainfilter.go", "scored[i].score > scored[j].score", "scored[i].chain.PathLen() > scored[j].chain.PathLen()"),
 ("bug", "C24", "trustchainfilter.go", "		c[i] = sc.chain\n", "		c[len(c)-1-i] = sc.chain\n"),
 ("bug", "C24", "trustchainfilter.go", "		if c.PathLen() <= f.maxPathLen {", "		if c.PathLen() < f.maxPathLen {"),
 ("bug", "C24", "trustchainfilter.go", "		if c.PathLen() <= f.maxPathLen {", "		if len(c) <= f.maxPathLen+3 && len(c) > 3 {"),
 ("bug", "C24", "trustchainfilter.go", "	if f.maxPathLen < 0 {", "	if f.maxPathLen <= 0 {"),
 ("bug", "C24", "trustchainfilter.go", "for i := 1; i < len(chains); i++ {", "for i := 2; i < len(chains); i++ {"),
 ("bug", "C24", "trustchainfilter.go", "l < minimum {", "l > minimum {"),
 ("bug", "C24", "trustchainfilter.go", "	return chain[len(chain)-1].Issuer == c.anchor", "	return chain[0].Issuer == c.anchor"),
 ("bug","C24","trustchainfilter.go","	return chain[len(chain)-1].Issuer == c.anchor","	return chain[len(chain)-1].Issuer[:len(c.anchor)] == c.anchor"),
 ("bug", "C24", "trustchainfilter.go", "		return err == nil\n", "		return err != nil\n"),
 ("bug", "C24", "trustchainfilter.go", "		c = f.Filter(c)\n		if len(c) == 0 {", "		c = f.Filter(c)\n		if len(c) <= 1 {"),
 ("bug", "C24", "trustchainfilter.go", "			final = append(final, c)\n		}\n	}\n	return\n}\n\n// NewTrustChainsFilterFromTrustChainChecker", "			final = append(final, c)\n		} else if len(final) > 0 {\n			break\n		}\n	}\n	return\n}\n\n// NewTrustChainsFilterFromTrustChainChecker"),
 ("bug", "C24", "trustchainfilter.go", "	for _, c := range chains {\n		if f.Check(c) {\n			final = append(final, c)\n", "	final = chains[:0]\n	for _, c := range chains {\n		if f.Check(c) {\n			final = append(final, c)\n"),
 ("bug", "C24", "trustchain.go", "	return len(c) - 3\n", "	return len(c) - 2\n"),
 ("bug", "C24", "trustchain.go", "	if len(c) <= 3 {\n		return 0", "	if len(c) <= 4 {\n		return 0"),
 ("same", "C24", ("trustchainfilter.go", "	sort.Slice(\n		scored, func(i, j int) bool {\n			return scored[i].score < scored[j].score // skipcq: GO-W4009\n		},\n	)\n", "	slices.SortStableFunc(scored, func(a, b scoredTrustChain) int { return cmp.Compare(a.score, b.score) })\n"), ("trustchainfilter.go", "import (\n", "import (\n	\"cmp\"\n	\"slices\"\n")),
 ("same", "C24", ("trustchainfilter.go", "	sort.Slice(\n		scored, func(i, j int) bool {\n			return scored[i].score > scored[j].score // skipcq: GO-W4009\n		},\n	)\n", "	for i := 1; i < len(scored); i++ {\n		for j := i; j > 0 && scored[j-1].score < scored[j].score; j-- {\n			scored[j-1], scored[j] = scored[j], scored[j-1]\n		}\n	}\n")),
 ("same", "C24", "trustchainfilter.go", "	if len(chain) == 0 {\n		return false\n	}\n	return chain[len(chain)-1].Issuer == c.anchor", "	n := len(chain)\n	if n > 0 {\n		last := chain[n-1]\n		return c.anchor == last.Issuer\n	}\n	return false"),
 ("same", "C24", "trustchainfilter.go", "		minimum := chains[0].PathLen()\n		for i := 1; i < len(chains); i++ {\n			if l := chains[i].PathLen(); l < minimum {\n				minimum = l\n			}\n		}\n		f.maxPathLen = minimum // skipcq RVV-B0006\n", "		f.maxPathLen = chains[0].PathLen()\n		for _, chain := range chains[1:] {\n			f.maxPathLen = min(f.maxPathLen, chain.PathLen())\n		}\n"),
 ("same", "C24", "trustchainfilter.go", "	for _, f := range filter {\n		c = f.Filter(c)\n		if len(c) == 0 {\n			break\n		}\n	}\n	return c\n", "	for i := 0; i < len(filter) && len(c) > 0; i++ {\n		c = filter[i].Filter(c)\n	}\n	return c\n"),
 ("same", "C24", "trustchain.go", "	if len(c) <= 3 {\n		return 0\n	}\n	return len(c) - 3\n", "	return max(len(c)-3, 0)\n"),
 ("same", "C24", "trustchainfilter.go", "	for _, c := range chains {\n		if f.Check(c) {\n			final = append(final, c)\n		}\n	}\n	return\n", "	for i := range chains {\n		if !f.Check(chains[i]) {\n			continue\n		}\n		final = append(final, chains[i])\n	}\n	return final\n"),
 # C36
 ("bug", "C36", "federation.go", "		Subject:          f.EntityID,\n", "		Subject:          f.Metadata.Extra[\"sub\"].(string),\n"),
 ("bug", "C36", "federation.go", "now.Add(time.Second * time.Duration(f.ConfigurationLifetime))", "now.Add(time.Minute * time.Duration(f.ConfigurationLifetime))"),
 ("bug", "C36", "federation.go", "now.Add(time.Second * time.Duration(f.ConfigurationLifetime))", "now.Add(time.Second * time.Duration(defaultEntityConfigurationLifetime))"),
 ("bug", "C36", "federation.go", "			internal.Log(err.Error())\n			continue\n		}\n		tms", "			internal.Log(err.Error())\n			break\n		}\n		tms"),
 ("bug", "C36", "federation.go", "			internal.Log(err.Error())\n			continue\n		}\n		tms", "			internal.Log(err.Error())\n		}\n		tms"),
 ("bug", "C36", "federation.go", "				TrustMarkType: tmc.TrustMarkType,\n", "				TrustMarkType: f.TrustMarks[0].TrustMarkType,\n"),
 ("bug", "C36", "federation.go", "		TrustMarkOwners:  f.TrustMarkOwners,\n", "		MetadataPolicyCrit: OperatorOrder,\n		TrustMarkOwners:  f.TrustMarkOwners,\n"),
 ("bug", "C36", "federation.go", "		TrustMarkOwners:  f.TrustMarkOwners,\n", "		Audience: f.EntityID,\n		TrustMarkOwners:  f.TrustMarkOwners,\n"),
 ("bug", "C36", "federation.go", "		AuthorityHints:   f.AuthorityHints,\n", ""),
 ("bug", "C36", "federation.go", "	if configurationLifetime <= 0 {", "	if configurationLifetime == 0 {"),
 ("bug", "C36", "federation.go", "	if configurationLifetime <= 0 {", "	if configurationLifetime <= 60 {"),
 ("bug", "C36", "federation.go", "		Metadata:         f.Metadata,\n", "		Metadata:         &Metadata{FederationEntity: f.Metadata.FederationEntity},\n"),
 ("bug", "C36", "federation.go", "NewRequestObjectProducer(entityID, oidcSigningKey", "NewRequestObjectProducer(entityID, signer.key"),
 ("bug", "C36", "federation.go", "		Extra:                 extra,\n", "		Extra:                 metadata.Extra,\n"),
 ("bug", "C36", "federation.go", "	return f.EntityStatementSigner.JWT(payload)", "	payload.Issuer = f.EntityID\n	return f.EntityStatementSigner.JWT(payload)"),
 ("bug", "C36", "jwks/jwks.go", "jwk.PublicKeyOf(publicKey)", "jwk.Import(publicKey)"),
 ("bug", "C36", "jwks/jwks.go", "key.Set(jwk.AlgorithmKey, alg)", "key.Set(jwk.AlgorithmKey, jwa.ES256())"),
 ("bug", "C36", "jwks/jwks.go", "string(jwk.ForSignature)", "string(jwk.ForEncryption)"),
 ("bug", "C36", "jwtsigning.go", "jwks.KeyToJWKS(s.key.Public(), s.alg)", "jwks.KeyToJWKS(s.key, s.alg)"),
 ("bug", "C36", "federation.go", "		IssuedAt:         unixtime.Unixtime{Time: now},\n", "		IssuedAt:         unixtime.Unixtime{Time: now.Add(-time.Minute)},\n"),
 ("same", "C36", "federation.go", "	for _, tmc := range f.TrustMarks {\n		tm, err := tmc.TrustMarkJWT()\n		if err != nil {\n			internal.Log(err.Error())\n			continue\n		}\n		tms = append(\n			tms, TrustMarkInfo{\n				TrustMarkType: tmc.TrustMarkType,\n				TrustMarkJWT:  tm,\n			},\n		)\n	}\n", "	for i := range f.TrustMarks {\n		info := TrustMarkInfo{}\n		var err error\n		if info.TrustMarkJWT, err = f.TrustMarks[i].TrustMarkJWT(); err == nil {\n			info.TrustMarkType = f.TrustMarks[i].TrustMarkType\n			tms = append(tms, info)\n		} else {\n			internal.Log(err.Error())\n		}\n	}\n"),
 ("same", "C36", ("federation.go", "	return &EntityStatementPayload{\n		Issuer:           f.EntityID,\n		Subject:          f.EntityID,\n", "	p := f.base(now)\n	p.TrustMarks = tms\n	return p\n}\n\nfunc (f *FederationEntity) base(now time.Time) *EntityStatementPayload {\n	return &EntityStatementPayload{\n		Issuer:           f.EntityID,\n		Subject:          f.EntityID,\n"), ("federation.go", "		TrustMarks:       tms,\n", "")),
 ("same", "C36", "federation.go", "	if configurationLifetime <= 0 {\n		configurationLifetime = defaultEntityConfigurationLifetime\n	}\n	return &FederationEntity{", "	lifetime := configurationLifetime\n	if !(lifetime > 0) {\n		lifetime = defaultEntityConfigurationLifetime\n	}\n	configurationLifetime = lifetime\n	return &FederationEntity{"),
 ("same", "C36", "jwks/jwks.go", "	jwks := jwk.NewSet()\n	jwks.AddKey(key)\n	return JWKS{jwks}\n", "	jwks := NewJWKS()\n	jwks.Set.AddKey(key)\n	return jwks\n"),
 ("same", "C36", "federation.go", "		ExpiresAt:        unixtime.Unixtime{Time: now.Add(time.Second * time.Duration(f.ConfigurationLifetime))},\n", "		ExpiresAt:        unixtime.Unixtime{Time: now.Add(time.Duration(f.ConfigurationLifetime) * time.Second)},\n"),
 ("same", "C36", "federation.go", "	return f.EntityStatementSigner.JWT(f.EntityConfigurationPayload())\n", "	payload := f.EntityConfigurationPayload()\n	return f.SignEntityStatement(*payload)\n"),
 # C27
 ("bug", "C27", "authcode.go", "	requestValues = maps.Clone(requestValues)\n", "	_ = maps.Clone(requestValues)\n"),
 ("bug", "C27", "authcode.go", "	delete(requestValues, \"client_secret\")\n", ""),
 ("bug", "C27", "authcode.go", "	delete(requestValues, \"sub\")\n", ""),
 ("bug", "C27", "authcode.go", "	requestValues[\"client_id\"] = rop.EntityID\n	delete", "	if _, set := requestValues[\"client_id\"]; !set {\n		requestValues[\"client_id\"] = rop.EntityID\n	}\n	delete"),
 ("bug", "C27", "authcode.go", "	if _, jtiFound := requestValues[\"jti\"]; !jtiFound {", "	if _, jtiFound := requestValues[\"jti\"]; jtiFound {"),
 ("bug", "C27", "authcode.go", "	requestValues[\"exp\"] = now + rop.lifetime\n", "	requestValues[\"exp\"] = now + rop.lifetime*60\n"),
 ("bug", "C27", "authcode.go", "	requestValues[\"iat\"] = now\n", "	if _, set := requestValues[\"iat\"]; !set {\n		requestValues[\"iat\"] = now\n	}\n"),
 ("bug", "C27", "authcode.go", "	if _, audFound := requestValues[\"aud\"]; !audFound {", "	if requestValues[\"aud\"] == nil && len(requestValues) == 0 {"),
 ("bug", "C27", "authcode.go", "		\"sub\": rop.EntityID,\n", "		\"sub\": aud,\n"),
 ("bug", "C27", "authcode.go", "	assertionValues[\"jti\"] = jti.String()\n", "	assertionValues[\"jti\"] = aud\n	_ = jti\n"),
 ("bug", "C27", "authcode.go", "	requestParams[\"aud\"] = opMetadata.Issuer\n", "	requestParams[\"aud\"] = opMetadata.AuthorizationEndpoint\n"),
 ("bug", "C27", "authcode.go", "	requestParams[\"state\"] = state\n", "	if _, set := requestParams[\"state\"]; !set {\n		requestParams[\"state\"] = state\n	}\n"),
 ("bug", "C27", "authcode.go", "		if len(v) == 1 {\n			requestParams[k] = v[0]", "		if len(v) > 0 {\n			requestParams[k] = v[0]"),
 ("bug", "C27", "authcode.go", "	q := u.Query()\n", "	q := url.Values{}\n"),
 ("bug", "C27", "authcode.go", "	q.Set(\"redirect_uri\", redirectURI)\n", ""),
 ("bug", "C27", "authcode.go", "	u, err := url.Parse(opMetadata.AuthorizationEndpoint)", "	u, err := url.Parse(opMetadata.TokenEndpoint)"),
 ("bug", "C27", "authcode.go", "	for k, v := range additionalParameter {\n		params[k] = v\n	}\n", "	if additionalParameter != nil {\n		params = additionalParameter\n	}\n"),
 ("bug", "C27", "authcode.go", "	params.Set(\"code\", code)\n", "	params.Add(\"code\", code)\n"),
 ("bug", "C27", "authcode.go", "ClientAssertion(opMetadata.TokenEndpoint)", "ClientAssertion(opMetadata.Issuer)"),
 ("bug", "C27", "authcode.go", "tokenClient.PostForm(opMetadata.TokenEndpoint, params)", "tokenClient.PostForm(opMetadata.AuthorizationEndpoint, params)"),
 ("bug", "C27", "authcode.go", "	if errRes.Error != \"\" {\n		return nil, &errRes, nil\n	}\n", ""),
 ("bug", "C27", "authcode.go", "res.StatusCode > 299", "res.StatusCode > 399"),
 ("bug", "C27", "authcode.go", "	if errRes.Error != \"\" {", "	if errRes.Error != \"\" && res.StatusCode >= 400 {"),
 ("bug", "C27", "authcode.go", "	if err = json.Unmarshal(body, &tokenRes); err != nil {\n		return nil, nil, err\n	}\n", "	_ = json.Unmarshal(body, &tokenRes)\n"),
 ("bug", "C27", "authcode.go", "	body, err := io.ReadAll(res.Body)\n	if err != nil {\n		return nil, nil, err\n	}\n", "	body, _ := io.ReadAll(res.Body)\n"),
 ("same", "C27", "authcode.go", "	if requestValues == nil {\n		return nil, errors.New(\"request must contain 'aud' claim with OPs issuer identifier url\")\n	}\n	if _, audFound := requestValues[\"aud\"]; !audFound {\n		return nil, errors.New(\"request must contain 'aud' claim with OPs issuer identifier url\")\n	}\n	requestValues = maps.Clone(requestValues)\n	requestValues[\"iss\"] = rop.EntityID\n	requestValues[\"client_id\"] = rop.EntityID\n	delete(requestValues, \"sub\")\n	delete(requestValues, \"client_secret\")\n", "	if _, found := requestValues[\"aud\"]; !found {\n		return nil, errors.New(\"request must contain 'aud' claim with OPs issuer identifier url\")\n	}\n	given := requestValues\n	requestValues = make(map[string]any, len(given)+4)\n	maps.Copy(requestValues, given)\n	delete(requestValues, \"client_secret\")\n	delete(requestValues, \"sub\")\n	for _, k := range []string{\"client_id\", \"iss\"} {\n		requestValues[k] = rop.EntityID\n	}\n"),
 ("same", "C27", ("authcode.go", "	jti, err := uuid.NewRandom()\n	if err != nil {\n		return nil, errors.Wrap(err, \"could not create jti\")\n	}\n	assertionValues[\"jti\"] = jti.String()\n", "	if err := addJTI(assertionValues); err != nil {\n		return nil, err\n	}\n"), ("authcode.go", "// GetAuthorizationURL creates", "func addJTI(m map[string]any) error {\n	jti, err := uuid.NewRandom()\n	if err == nil {\n		m[\"jti\"] = jti.String()\n		return nil\n	}\n	return errors.Wrap(err, \"could not create jti\")\n}\n\n// GetAuthorizationURL creates")),
 ("same", "C27", "authcode.go", "	for k, v := range additionalParams {\n		if len(v) == 1 {\n			requestParams[k] = v[0]\n		} else {\n			requestParams[k] = v\n		}\n	}\n", "	for k, v := range additionalParams {\n		requestParams[k] = v\n		if len(v) == 1 {\n			requestParams[k] = v[0]\n		}\n	}\n"),
 ("same", "C27", "authcode.go", "	params := url.Values{}\n	for k, v := range additionalParameter {\n		params[k] = v\n	}\n	params.Set(\"grant_type\", \"authorization_code\")\n	params.Set(\"code\", code)\n", "	params := url.Values{\n		\"grant_type\": {\"authorization_code\"},\n		\"code\":       {code},\n	}\n	for k, v := range additionalParameter {\n		if !params.Has(k) {\n			params[k] = v\n		}\n	}\n"),
 ("same", "C27", "authcode.go", "	if res.StatusCode < 200 || res.StatusCode > 299 {", "	if res.StatusCode/100 != 2 {"),
 ("same", "C27", "authcode.go", "	if errRes.Error != \"\" {\n		return nil, &errRes, nil\n	}\n", "	if len(errRes.Error) > 0 {\n		return nil, &OIDCErrorResponse{Error: errRes.Error, ErrorDescription: errRes.ErrorDescription}, nil\n	}\n"),
 ("same", "C27", "authcode.go", "	q := u.Query()\n	q.Set(\"request\", string(requestObject))\n	q.Set(\"client_id\", f.EntityID)\n", "	q := u.Query()\n	q[\"client_id\"] = []string{f.EntityID}\n	q.Set(\"request\", string(requestObject))\n"),
 ("same", "C27", "authcode.go", "	now := time.Now().Unix()\n	requestValues[\"iat\"] = now\n	requestValues[\"exp\"] = now + rop.lifetime\n", "	now := time.Now()\n	requestValues[\"iat\"] = now.Unix()\n	requestValues[\"exp\"] = now.Add(time.Duration(rop.lifetime) * time.Second).Unix()\n"),
 # C26
 ("bug", "C26", "internal/http/http.go", "	if !resp.IsSuccess() {", "	if resp.IsError() {"),
 ("bug", "C26", "internal/http/http.go", "	if !resp.IsSuccess() {", "	if resp.StatusCode() >= 500 {"),
 ("bug", "C26", "internal/http/http.go", "	if !resp.IsSuccess() {", "	if resp.StatusCode() > 204 && resp.StatusCode() != 304 {"),
 ("bug", "C26", "internal/http/http.go", "		errRes.Status = resp.RawResponse.StatusCode\n", ""),
 ("bug", "C26", "internal/http/http.go", "			Status: resp.StatusCode(),", "			Status: 500,"),
 ("bug", "C26", "internal/http/http.go", "	if !resp.IsSuccess() {\n		return &HttpError{\n			Error:  resp.Status(),\n			Status: resp.StatusCode(),\n		}\n	}\n", ""),
 ("bug", "C26", "internal/http/http.go", "SetQueryParamsFromValues(params).SetError(&HttpError{}).SetResult(res)", "SetQueryParamsFromValues(params).SetResult(res)"),
 ("bug", "C26", "internal/http/http.go", "	resp, err := client.R().SetQueryParamsFromValues(params).", "	resp, err := client.R()."),
 ("bug", "C26", "internal/http/http.go", "SetResult(res).Post(url)", "SetResult(res).Put(url)"),
 ("bug", "C26", "internal/http/http.go", "SetError(&HttpError{}).SetResult(res).Post(url)", "SetError(&HttpError{}).Post(url)"),
 ("bug", "C26", "internal/http/http.go", "SetResult(res).Get(url)\n	if err != nil {\n		return nil, nil, errors.WithStack(err)\n	}", "SetResult(res).Get(url)\n	if err != nil && resp == nil {\n		return nil, nil, errors.WithStack(err)\n	}"),
 ("bug", "C26", "internal/http/http.go", "SetResult(res).Get(url)\n	if err != nil {\n		return nil, nil, errors.WithStack(err)\n	}", "SetResult(res).Get(url)\n	if err != nil {\n		resp, err = client.R().SetQueryParamsFromValues(params).SetError(&HttpError{}).SetResult(res).Get(url)\n	}\n	if err != nil {\n		return nil, nil, errors.WithStack(err)\n	}"),
 ("bug", "C26", "trustresolver.go", "	res, errRes, err := http.Get(uri, params, nil)\n	if err != nil {\n		return nil, err\n	}\n	if errRes != nil {\n		return nil, errRes.Err()\n	}", "	res, errRes, err := http.Get(uri, params, nil)\n	if err != nil || errRes != nil {\n		return nil, err\n	}"),
 ("bug", "C26", "discovery.go", "	resp, errRes, err := http.Get(listEndpoint, nil, &[]string{})\n	if err != nil {\n		return nil, err\n	}\n	if errRes != nil {\n		return nil, errRes.Err()\n	}", "	resp, errRes, err := http.Get(listEndpoint, nil, &[]string{})\n	if err != nil {\n		return nil, err\n	}\n	if errRes != nil {\n		if errRes.Status == 404 {\n			return []string{}, nil\n		}\n		return nil, errRes.Err()\n	}"),
 ("bug", "C26", "trustmark_refresher.go", "	if errRes != nil {\n		return errRes.Err()\n	}", "	if errRes != nil {\n		return nil\n	}"),
 ("bug", "C26", "discovery.go", "	if errRes != nil {\n		internal.Logf(\"error while fetching entity collection endpoint: %s\", errRes.Err().Error())\n		return nil\n	}\n", "	if errRes != nil {\n		internal.Logf(\"error while fetching entity collection endpoint: %s\", errRes.Err().Error())\n	}\n"),
 ("bug", "C26", "metadata_resolver.go", "		return nil, resolveStatus, nil\n	}\n	resolveStatus = resolveStatusValid", "		if resolveStatus != resolveStatusUnknown {\n			return nil, resolveStatus, nil\n		}\n	}\n	resolveStatus = resolveStatusValid"),
 ("same", "C26", "internal/http/http.go", "	if !resp.IsSuccess() {", "	if resp.StatusCode()/100 != 2 {"),
 ("same", "C26", "internal/http/http.go", "		errRes.Status = resp.RawResponse.StatusCode\n", "		errRes.Status = resp.StatusCode()\n"),
 ("same", "C26", ("internal/http/http.go", "	resp, err := client.R().SetBody(req).SetError(&HttpError{}).SetResult(res).Post(url)\n	if err != nil {\n		return nil, nil, errors.WithStack(err)\n	}\n	if errRes := errorResponse(resp); errRes != nil {\n		return nil, errRes, nil\n	}\n	return resp, nil, nil\n", "	r := client.R().SetResult(res)\n	r.SetBody(req)\n	return do(r, resty.MethodPost, url)\n"), ("internal/http/http.go", "// Post performs", "func do(r *resty.Request, method, url string) (*resty.Response, *HttpError, error) {\n	resp, err := r.SetError(&HttpError{}).Execute(method, url)\n	if err != nil {\n		return nil, nil, errors.WithStack(err)\n	}\n	errRes := errorResponse(resp)\n	if errRes == nil {\n		return resp, nil, nil\n	}\n	return nil, errRes, nil\n}\n\n// Post performs")),
 ("same", "C26", "internal/http/http.go", "	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != \"\" {\n		errRes.Status = resp.RawResponse.StatusCode\n		return errRes\n	}\n	if !resp.IsSuccess() {\n		return &HttpError{\n			Error:  resp.Status(),\n			Status: resp.StatusCode(),\n		}\n	}\n	return nil\n", "	if resp.IsSuccess() {\n		return nil\n	}\n	e := &HttpError{Error: resp.Status()}\n	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != \"\" {\n		e.Error = errRes.Error\n		e.ErrorDescription = errRes.ErrorDescription\n	}\n	e.Status = resp.StatusCode()\n	return e\n"),
 ("same", "C26", ("trustresolver.go", "	res, errRes, err := http.Get(uri, params, nil)\n	if err != nil {\n		return nil, err\n	}\n	if errRes != nil {\n		return nil, errRes.Err()\n	}\n	return ParseEntityStatement(res.Body())", "	return getStatement(uri, params)"), ("trustresolver.go", "	res, errRes, err := http.Get(uri, nil, nil)\n	if err != nil {\n		return nil, err\n	}\n	if errRes != nil {\n		return nil, errRes.Err()\n	}\n	return ParseEntityStatement(res.Body())", "	return getStatement(uri, nil)"), ("trustresolver.go", "func httpGetEntityConfiguration(", "func getStatement(uri string, params url.Values) (*EntityStatement, error) {\n	res, errRes, err := http.Get(uri, params, nil)\n	switch {\n	case err != nil:\n		return nil, err\n	case errRes != nil:\n		return nil, errRes.Err()\n	default:\n		return ParseEntityStatement(res.Body())\n	}\n}\n\nfunc httpGetEntityConfiguration(")),
 # C26
 ("same", "C26", ("trustresolver.go", "	res, errRes, err := http.Get(uri, params, nil)", "	res, errRes, err := get(uri, params)"), ("trustresolver.go", "func httpGetEntityConfiguration(", "func get(uri string, params url.Values) (*resty.Response, *http.HttpError, error) {\n	internal.Logf(\"GET %s\", uri)\n	return http.Get(uri, params, nil)\n}\n\nfunc httpGetEntityConfiguration("), ("trustresolver.go", "	\"github.com/scylladb/go-set/strset\"", "	\"github.com/go-resty/resty/v2\"\n	\"github.com/scylladb/go-set/strset\"")),
 # C33
 ("bug", "C33", "metadata_resolver.go", "		case InvalidSubject, InvalidTrustAnchor:\n			resolveStatus = resolveStatusNotAcceptable\n		case InvalidTrustChain:", "		case InvalidSubject:\n			resolveStatus = resolveStatusNotAcceptable\n		case InvalidTrustChain, InvalidTrustAnchor:"),
 ("bug", "C33", "metadata_resolver.go", "		case InvalidMetadata:\n			resolveStatus = resolveStatusOnlyValidTrustChain", "		case InvalidMetadata:\n			resolveStatus = resolveStatusInvalid"),
 ("bug", "C33", "metadata_resolver.go", "			resolveStatus = resolveStatusUnknown\n		}", "			resolveStatus = resolveStatusInvalid\n		}"),
 ("bug", "C33", "metadata_resolver.go", "		internal.Log(err.Error())\n		return false, false\n", "		internal.Log(err.Error())\n		return false, true\n"),
 ("bug", "C33", "metadata_resolver.go", "	if resStatus != resolveStatusValid {\n		return nil, errors", "	if resStatus == resolveStatusInvalid {\n		return nil, errors"),
 ("bug", "C33", "metadata_resolver.go", "	if resStatus != resolveStatusValid {\n		return ResolveResponsePayload{}, errors.New(\"no positive resolve response from remote resolver\")\n	}\n", "	if resStatus != resolveStatusValid {\n		return ResolveResponsePayload{}, nil\n	}\n"),
 ("bug", "C33", "metadata_resolver.go", "	case resolveStatusInvalid:\n		return false, true", "	case resolveStatusInvalid, resolveStatusNotAcceptable:\n		return false, true"),
 ("bug", "C33", "metadata_resolver.go", "	rres, err := ParseResolveResponse(res.Body())\n	return rres, resolveStatus, err", "	rres, err := ParseResolveResponse(res.Body())\n	if err != nil {\n		return nil, resolveStatus, nil\n	}\n	return rres, resolveStatus, err"),
 ("bug", "C33", "metadata_resolver.go", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)\n		if validConfirmed {\n			return true, false\n		}\n		if invalidConfirmed {\n			return false, true\n		}\n	}\n", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)\n		if validConfirmed {\n			return true, false\n		}\n		if invalidConfirmed {\n			break\n		}\n	}\n"),
 ("bug", "C33", "metadata_resolver.go", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)\n		if validConfirmed {\n			return true, false\n		}\n		if invalidConfirmed {\n			return false, true\n		}\n	}\n", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)\n		return validConfirmed, invalidConfirmed\n	}\n"),
 ("bug", "C33", "metadata_resolver.go", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := remoteResolver.ResolveResponsePayload(req)\n		if err != nil {\n			internal.Logf(\"error while obtaining resolve response: %v\", err)\n			continue\n		}\n		return res, nil\n	}\n", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := remoteResolver.ResolveResponsePayload(req)\n		if err != nil {\n			return res, err\n		}\n		return res, nil\n	}\n"),
 ("bug", "C33", "metadata_resolver.go", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := remoteResolver.ResolveResponsePayload(req)\n		if err != nil {\n			internal.Logf(\"error while obtaining resolve response: %v\", err)\n			continue\n		}\n		return res, nil\n	}\n", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			break\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := remoteResolver.ResolveResponsePayload(req)\n		if err != nil {\n			internal.Logf(\"error while obtaining resolve response: %v\", err)\n			continue\n		}\n		return res, nil\n	}\n"),
 ("bug", "C33", "metadata_resolver.go", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := remoteResolver.ResolveResponsePayload(req)\n		if err != nil {\n			internal.Logf(\"error while obtaining resolve response: %v\", err)\n			continue\n		}\n		return res, nil\n	}\n", "	for _, tr := range req.TrustAnchor[:min(1, len(req.TrustAnchor))] {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := remoteResolver.ResolveResponsePayload(req)\n		if err != nil {\n			internal.Logf(\"error while obtaining resolve response: %v\", err)\n			continue\n		}\n		return res, nil\n	}\n"),
 ("bug", "C33", "metadata_resolver.go", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)\n		if validConfirmed {\n			return true, false\n		}\n		if invalidConfirmed {\n			return false, true\n		}\n	}\n", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationFetchEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)\n		if validConfirmed {\n			return true, false\n		}\n		if invalidConfirmed {\n			return false, true\n		}\n	}\n"),
 ("bug", "C33", "metadata_resolver.go", "	return LocalMetadataResolver{}.ResolveResponsePayload(req)\n", "	return ResolveResponsePayload{}, errors.New(\"no resolver answered\")\n"),
 ("bug", "C33", "metadata_resolver.go", "	return LocalMetadataResolver{}.ResolvePossible(req)\n", "	return LocalMetadataResolver{}.ResolvePossible(apimodel.ResolveRequest{Subject: req.Subject, TrustAnchor: req.TrustAnchor})\n"),
 ("bug", "C33", "metadata_resolver.go", "	params, err := query.Values(req)\n", "	params, err := query.Values(apimodel.ResolveRequest{Subject: req.Subject, TrustAnchor: req.TrustAnchor})\n"),
 ("same", "C33", ("metadata_resolver.go", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		validConfirmed, invalidConfirmed := remoteResolver.ResolvePossible(req)\n		if validConfirmed {\n			return true, false\n		}\n		if invalidConfirmed {\n			return false, true\n		}\n	}\n", "	var valid, invalid bool\n	if remoteResolvers(req.TrustAnchor, func(r SimpleRemoteMetadataResolver) bool {\n		valid, invalid = r.ResolvePossible(req)\n		return valid || invalid\n	}) {\n		return valid, invalid\n	}\n"), ("metadata_resolver.go", "// SmartRemoteMetadataResolver is", "func remoteResolvers(anchors []string, use func(SimpleRemoteMetadataResolver) bool) bool {\n	for _, tr := range anchors {\n		endpoint := resolveEndpointOf(tr)\n		if endpoint != \"\" && use(SimpleRemoteMetadataResolver{ResolveEndpoint: endpoint}) {\n			return true\n		}\n	}\n	return false\n}\n\nfunc resolveEndpointOf(id string) string {\n	conf, err := GetEntityConfiguration(id)\n	if err != nil {\n		internal.Logf(\"error while obtaining entity configuration: %v\", err)\n		return \"\"\n	}\n	if conf == nil || conf.Metadata == nil {\n		return \"\"\n	}\n	if fe := conf.Metadata.FederationEntity; fe != nil {\n		return fe.FederationResolveEndpoint\n	}\n	return \"\"\n}\n\n// SmartRemoteMetadataResolver is"), ("metadata_resolver.go", "	for _, tr := range req.TrustAnchor {\n		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := remoteResolver.ResolveResponsePayload(req)\n		if err != nil {\n			internal.Logf(\"error while obtaining resolve response: %v\", err)\n			continue\n		}\n		return res, nil\n	}\n", "	var res ResolveResponsePayload\n	if remoteResolvers(req.TrustAnchor, func(r SimpleRemoteMetadataResolver) (ok bool) {\n		var err error\n		res, err = r.ResolveResponsePayload(req)\n		return err == nil\n	}) {\n		return res, nil\n	}\n")),
 ("same", "C33", "metadata_resolver.go", "	switch resStatus {\n	case resolveStatusValid, resolveStatusOnlyValidTrustChain:\n		return true, false\n	case resolveStatusInvalid:\n		return false, true\n	default:\n		return false, false\n	}", "	return resStatus == resolveStatusValid || resStatus == resolveStatusOnlyValidTrustChain, resStatus == resolveStatusInvalid"),
 ("same", "C33", "metadata_resolver.go", "	res, resStatus, err := r.ResolveResponse(req)\n	if err != nil {\n		return nil, err\n	}\n	if resStatus != resolveStatusValid {\n		return nil, errors.New(\"no positive resolve response from remote resolver\")\n	}\n	return res.Metadata, nil", "	payload, err := r.ResolveResponsePayload(req)\n	return payload.Metadata, err"),
 ("same", "C33", "metadata_resolver.go", "	res, err := r.ResolveResponsePayload(req)\n	if err != nil {\n		return nil, err\n	}\n	return res.Metadata, nil", "	res, err := r.ResolveResponsePayload(req)\n	if err == nil {\n		return res.Metadata, nil\n	}\n	return nil, err"),
 ("bug", "C25", "trustchain.go", "	for i := 1; i < len(c); i++ {\n		if e", "	for i := 1; i < len(c)-1; i++ {\n		if e"),
 ("bug", "C25", "trustchain.go", "e.Before(exp.Time) {", "e.After(exp.Time) {"),
 ("bug", "C25", "trustchain.go", "e := c[i].ExpiresAt; e.Before(exp.Time)", "e := c[i].ExpiresAt; e.Before(c[i-1].ExpiresAt.Time)"),
 ("bug", "C25", "metadata_resolver.go", "	chains = chains.SortAsc(TrustChainScoringPathLen)\n", ""),
 ("bug", "C25", "metadata_resolver.go", "	chains = chains.SortAsc(TrustChainScoringPathLen)\n", "	chains = chains.SortDesc(TrustChainScoringPathLen)\n"),
 ("bug", "C25", "metadata_resolver.go", "		m, err := chain.Metadata()\n		if err == nil {\n", "		m, err := chain.Metadata()\n		if err != nil {\n			return res, chain, err\n		}\n		{\n"),
 ("bug", "C25", "metadata_resolver.go", "			res.TrustChain = chain.Messages()\n", "			res.TrustChain = chains[0].Messages()\n"),
 ("bug", "C25", "metadata_resolver.go", "		Types:          req.EntityTypes,\n	}\n	chains := tr.ResolveToValidChains()\n	if len", "	}\n	chains := tr.ResolveToValidChains()\n	if len"),
 ("bug", "C25", "metadata_resolver.go", "	chains := tr.ResolveToValidChains()\n	valid", "	chains := tr.ResolveToValidChainsWithoutVerifyingMetadata()\n	valid"),
 ("bug", "C25", "metadata_resolver.go", "	return valid, !valid", "	return valid, false"),
 ("bug", "C25", "metadata_resolver.go", "	for _, chain = range chains {\n		m", "	for _, chain = range chains[:1] {\n		m"),
 ("bug", "C25", "trustchain.go", "	for _, cc := range c {\n		msgs = append(msgs, cc.jwtMsg)\n	}", "	for i := range c {\n		msgs = append(msgs, c[len(c)-1-i].jwtMsg)\n	}"),
 ("same", "C25", "trustchain.go", "	exp := c[0].ExpiresAt\n	for i := 1; i < len(c); i++ {\n		if e := c[i].ExpiresAt; e.Before(exp.Time) {\n			exp = e\n		}\n	}\n	return exp", "	first := c[0]\n	for _, stmt := range c[1:] {\n		if first.ExpiresAt.After(stmt.ExpiresAt.Time) {\n			first = stmt\n		}\n	}\n	return first.ExpiresAt"),
 ("same", "C25", "metadata_resolver.go", "	chains = chains.SortAsc(TrustChainScoringPathLen)\n	for _, chain = range chains {\n		m, err := chain.Metadata()\n		if err == nil {\n			res.TrustChain = chain.Messages()\n			res.Metadata = m\n			return res, chain, nil\n		}\n	}\n", "	for _, candidate := range chains.SortAsc(TrustChainScoringPathLen) {\n		m, e := candidate.Metadata()\n		if e != nil {\n			continue\n		}\n		return ResolveResponsePayload{Metadata: m, TrustChain: candidate.Messages()}, candidate, nil\n	}\n"),
 ("same", "C25", ("metadata_resolver.go", "	tr := TrustResolver{\n		TrustAnchors:   NewTrustAnchorsFromEntityIDs(req.TrustAnchor...),\n		StartingEntity: req.Subject,\n		Types:          req.EntityTypes,\n	}\n	chains := tr.ResolveToValidChains()\n	valid", "	chains := validChains(req)\n	valid"), ("metadata_resolver.go", "	tr := TrustResolver{\n		TrustAnchors:   NewTrustAnchorsFromEntityIDs(req.TrustAnchor...),\n		StartingEntity: req.Subject,\n		Types:          req.EntityTypes,\n	}\n	chains := tr.ResolveToValidChains()\n	if", "	chains := validChains(req)\n	if"), ("metadata_resolver.go", "// SmartRemoteMetadataResolver is", "func validChains(req apimodel.ResolveRequest) TrustChains {\n	var anchors TrustAnchors\n	for i := range req.TrustAnchor {\n		anchors = append(anchors, TrustAnchor{EntityID: req.TrustAnchor[i]})\n	}\n	tr := &TrustResolver{StartingEntity: req.Subject, TrustAnchors: anchors}\n	tr.Types = req.EntityTypes\n	return tr.ResolveToValidChains()\n}\n\n// SmartRemoteMetadataResolver is")),
 ("same", "C25", "trustchain.go", "	for _, cc := range c {\n		msgs = append(msgs, cc.jwtMsg)\n	}\n	return", "	msgs = make(JWSMessages, len(c))\n	for i := range c {\n		msgs[i] = c[i].jwtMsg\n	}\n	return msgs"),
 # C34
 ("bug", "C34", "trustresolver.go", "	if starting.Metadata != nil {\n		if len(r.Types) > 0 {\n			utils.NilAllExceptByTag(starting.Metadata, r.Types)\n		}\n		includedEntityTypes.Add(starting.Metadata.GuessEntityTypes()...)\n	}\n", "	if starting.Metadata != nil && len(r.Types) > 0 {\n		utils.NilAllExceptByTag(starting.Metadata, r.Types)\n	}\n	includedEntityTypes.Add(starting.Metadata.GuessEntityTypes()...)\n"),
 ("bug", "C34", "federation.go", "	if metadata == nil || metadata.OpenIDProvider == nil {", "	if metadata == nil {"),
 ("bug", "C34", "federation.go", "	if metadata == nil || metadata.OpenIDProvider == nil {", "	if metadata.OpenIDProvider == nil {"),
 ("bug", "C34", "metadata_resolver.go", "		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := ", "		if entityConfig != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := "),
 ("bug", "C34", "metadata_resolver.go", "		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := ", "		if entityConfig != nil && entityConfig.Metadata != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := "),
 ("bug", "C34", "trustmark_refresher.go", "tmi.Metadata == nil || tmi.Metadata.FederationEntity == nil ||", "tmi.Metadata == nil ||"),
 ("bug", "C34", "trustmark_refresher.go", "tmi.Metadata == nil || tmi.Metadata.FederationEntity == nil ||", "tmi.Metadata != nil && tmi.Metadata.FederationEntity == nil ||"),
 ("bug", "C34", "trustresolver.go", "aStmt.Metadata == nil || aStmt.Metadata.FederationEntity == nil ||", "aStmt.Metadata.FederationEntity == nil ||"),
 ("bug", "C34", "trustresolver.go", "	if constraints.MaxPathLength != nil && *constraints", "	if *constraints"),
 ("bug", "C34", "trustresolver.go", "	if naming := constraints.NamingConstraints; naming != nil {", "	{\n		naming := constraints.NamingConstraints"),
 ("bug", "C34", "trustresolver.go", "	if constraints == nil {\n		return true\n	}\n", ""),
 ("bug", "C34", "discovery.go", "			metadata := getMetadataForCollectedEntity(e, trustAnchorIDs)\n			if metadata == nil || metadata.OpenIDProvider == nil {\n				return false\n			}\n			return utils.ReflectIsSubsetOf(neededScopes, metadata.OpenIDProvider.ScopesSupported)\n", "			metadata := getMetadataForCollectedEntity(e, trustAnchorIDs)\n			if metadata == nil {\n				return false\n			}\n			return utils.ReflectIsSubsetOf(neededScopes, metadata.OpenIDProvider.ScopesSupported)\n"),
 ("bug", "C34", "discovery.go", "			metadata := getMetadataForCollectedEntity(e, trustAnchorIDs)\n			if metadata == nil || metadata.OpenIDProvider == nil {\n				return false\n			}\n			return utils.ReflectIsSubsetOf(neededScopes, metadata.OpenIDProvider.ScopesSupported)\n", "			metadata := getMetadataForCollectedEntity(e, trustAnchorIDs)\n			if metadata.OpenIDProvider == nil {\n				return false\n			}\n			return utils.ReflectIsSubsetOf(neededScopes, metadata.OpenIDProvider.ScopesSupported)\n"),
 ("bug", "C34", "discovery.go", "							if entityConfig.Metadata == nil {\n								internal.Log(\"No metadata present -> skipping\")\n								return\n							}\n", ""),
 ("bug", "C34", "discovery.go", "							if entityConfig.Metadata.FederationEntity != nil &&\n								entityConfig", "							if entityConfig"),
 ("bug", "C34", "discovery.go", "				if stmt.Metadata == nil || stmt.Metadata.FederationEntity == nil ||\n", "				if stmt.Metadata == nil ||\n"),
 ("bug", "C34", "discovery.go", " && entityConfig.Metadata.FederationEntity != nil && entityConfig.Metadata.FederationEntity.Extra != nil {", " && entityConfig.Metadata.FederationEntity.Extra != nil {"),
 ("bug", "C34", "trustchain.go", "	if m == nil {\n		m = &Metadata{}\n	}\n", ""),
 ("bug", "C34", "unixtime/unixtime.go", "exp != nil && ", ""),
 ("same", "C34", "federation.go", "	if metadata == nil || metadata.OpenIDProvider == nil {\n		return nil, errors.New(\"resolved metadata does not contain metadata of an openid provider\")\n	}\n	return metadata.OpenIDProvider, nil\n", "	if metadata != nil {\n		if op := metadata.OpenIDProvider; op != nil {\n			return op, nil\n		}\n	}\n	return nil, errors.New(\"resolved metadata does not contain metadata of an openid provider\")\n"),
 ("same", "C34", ("trustresolver.go", "		if aStmt.Metadata == nil || aStmt.Metadata.FederationEntity == nil || aStmt.Metadata.FederationEntity.\n			FederationFetchEndpoint == \"\" {\n			continue\n		}\n		subordinateStmt, err := FetchEntityStatement(\n			aStmt.Metadata.FederationEntity.FederationFetchEndpoint, t.", "		endpoint, ok := fetchEndpointOf(aStmt)\n		if !ok {\n			continue\n		}\n		subordinateStmt, err := FetchEntityStatement(\n			endpoint, t."), ("trustresolver.go", "func matchNamingConstraint(", "func fetchEndpointOf(stmt *EntityStatement) (string, bool) {\n	if stmt.Metadata == nil {\n		return \"\", false\n	}\n	fed := stmt.Metadata.FederationEntity\n	if fed == nil || fed.FederationFetchEndpoint == \"\" {\n		return \"\", false\n	}\n	return fed.FederationFetchEndpoint, true\n}\n\nfunc matchNamingConstraint(")),
 ("same", "C34", ("trustresolver.go", "aStmt.Metadata == nil || aStmt.Metadata.FederationEntity == nil || aStmt.", "!hasFederationEntity(aStmt.Metadata) || aStmt."), ("trustresolver.go", "func matchNamingConstraint(", "func hasFederationEntity(m *Metadata) bool {\n	return m != nil && m.FederationEntity != nil\n}\n\nfunc matchNamingConstraint(")),
 ("same", "C34", ("discovery.go", "			metadata := getMetadataForCollectedEntity(e, trustAnchorIDs)\n			if metadata == nil || metadata.OpenIDProvider == nil {\n				return false\n			}\n			return utils.ReflectIsSubsetOf(neededScopes, metadata.OpenIDProvider.ScopesSupported)\n", "			op := opMetadata(e, trustAnchorIDs)\n			return op != nil && utils.ReflectIsSubsetOf(neededScopes, op.ScopesSupported)\n"), ("discovery.go", "// EntityCollectionFilterOPSupportedScopesIncludes returns", "func opMetadata(e *CollectedEntity, anchors []string) *OpenIDProviderMetadata {\n	if metadata := getMetadataForCollectedEntity(e, anchors); metadata != nil {\n		return metadata.OpenIDProvider\n	}\n	return nil\n}\n\n// EntityCollectionFilterOPSupportedScopesIncludes returns")),
 ("same", "C34", "trustresolver.go", "	if constraints == nil {\n		return true\n	}\n", "	if constraints == nil {\n		constraints = &ConstraintSpecification{}\n	}\n"),
 ("same", "C34", "metadata_resolver.go", "		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := ", "		if entityConfig == nil {\n			continue\n		}\n		hasFed := false\n		if m := entityConfig.Metadata; m != nil {\n			hasFed = m.FederationEntity != nil\n		}\n		if hasFed {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res, err := "),
 # C34
 ("bug", "C34", "metadata_resolver.go", "		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue\n		}\n		var resolveEndpoint string\n		if entityConfig != nil && entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res,", "		entityConfig, err := GetEntityConfiguration(tr)\n		if err != nil {\n			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n		}\n		var resolveEndpoint string\n		if entityConfig.Metadata != nil && entityConfig.Metadata.FederationEntity != nil {\n			resolveEndpoint = entityConfig.Metadata.FederationEntity.FederationResolveEndpoint\n		}\n		if resolveEndpoint == \"\" {\n			continue\n		}\n		remoteResolver := SimpleRemoteMetadataResolver{\n			ResolveEndpoint: resolveEndpoint,\n		}\n		res,"),
 ("bug", "C34", "discovery.go", "								if taErr != nil || trustMarkInfo", "								if trustMarkInfo"),
 ("bug", "C34", "discovery.go", "									if taErr == nil {\n										collected", "									if collectedEntity != nil {\n										collected"),
 ("bug", "C34", "discovery.go", "							if err != nil {\n								internal.Logf(\"Failed to get entity config for %s: %s\", subordinateID, err.Error())\n								return\n							}\n", "							if err != nil {\n								internal.Logf(\"Failed to get entity config for %s: %s\", subordinateID, err.Error())\n							}\n"),
 ("bug", "C34", "trustresolver.go", "	res, errRes, err := http.Get(uri, params, nil)\n	if err != nil {\n		return nil, err\n	}\n", "	res, errRes, err := http.Get(uri, params, nil)\n	if res.StatusCode() == 0 {\n		return nil, err\n	}\n"),
 ("bug", "C34", "trustmark_refresher.go", "	tm, err := ParseTrustMark(res.Body())\n	if err != nil {\n		return err\n	}\n", "	tm, err := ParseTrustMark(res.Body())\n	if err != nil {\n		internal.Log(err)\n	}\n"),
 # C31
 ("bug", "C31", "trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	return c.JWT, c.expiration\n", "	return c.JWT, c.expiration\n"),
 ("bug", "C31", "trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.JWT = jwt\n", "	c.JWT = jwt\n"),
 ("bug", "C31", "trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.JWT = jwt\n", "	c.JWT = jwt\n	c.mu.Lock()\n	defer c.mu.Unlock()\n"),
 ("bug", "C31", "trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	if time.Since", "	if time.Since"),
 ("bug", "C31", "trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	if time.Since(c.lastTried.Time) < time.Minute {\n		return false\n	}\n", "	if time.Since(c.lastTried.Time) < time.Minute {\n		return false\n	}\n	c.mu.Lock()\n	defer c.mu.Unlock()\n"),
 ("bug", "C31", "trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	return c.JWT, c.expiration\n", "	var mu sync.Mutex\n	mu.Lock()\n	defer mu.Unlock()\n	return c.JWT, c.expiration\n"),
 ("bug", "C31", "trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	return c.JWT, c.expiration\n", "	c.mu.Lock()\n	exp := c.expiration\n	c.mu.Unlock()\n	return c.JWT, exp\n"),
 ("bug", "C31", "trustmark_refresher.go", "	err := c.refresh()\n	jwt, _ = c.current()\n", "	err := c.refresh()\n	jwt = c.JWT\n"),
 ("bug", "C31", "trustmark_refresher.go", "	c.replace(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)\n", "	c.TrustMarkIssuer = tm.Issuer\n	c.replace(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)\n"),
 ("bug", "C31", ("trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	return c.JWT, c.expiration\n", "	c.mu.RLock()\n	defer c.mu.RUnlock()\n	return c.JWT, c.expiration\n"), ("trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.JWT = jwt\n", "	c.mu.RLock()\n	defer c.mu.RUnlock()\n	c.JWT = jwt\n"), ("trustmark_refresher.go", "sync.Mutex //", "sync.RWMutex //")),
 ("bug", "C31", "discovery.go", "	d.mu.Lock()\n	defer d.mu.Unlock()\n	if d.visited", "	if d.visited"),
 ("bug", "C31", "discovery.go", "	d.mu.Lock()\n	defer d.mu.Unlock()\n	if d.visitedEntities.Has(entityID) {\n		return false\n	}\n", "	if d.visitedEntities.Has(entityID) {\n		return false\n	}\n	d.mu.Lock()\n	defer d.mu.Unlock()\n"),
 ("bug", "C31", "discovery.go", "			seenMu.Unlock()\n		}\n		doneChan <- struct{}{}\n	}()\n", "			seenMu.Unlock()\n		}\n	}()\n	go func() { doneChan <- struct{}{} }()\n"),
 ("bug", "C31", "discovery.go", "	go func() {\n		for e := range entityChan {\n", "	go func() {\n		doneChan <- struct{}{}\n		for e := range entityChan {\n"),
 ("bug", "C31", ("discovery.go", "		wg.Add(1)\n		go func() {\n			defer wg", "		go func() {\n			wg.Add(1)\n			defer wg")),
 ("bug", "C31", "discovery.go", "		wg.Wait()\n		close(entityChan)\n", "		close(entityChan)\n		wg.Wait()\n"),
 ("bug", "C31", "discovery.go", "			defer wg.Done()\n			defer func() { <-sem }() // release\n			task()\n", "			wg.Done()\n			defer func() { <-sem }() // release\n			task()\n"),
 ("bug", "C31", "discovery.go", "								taOnce.Do(\n									func() {\n										ta, taErr = GetEntityConfiguration(req.TrustAnchor)\n									},\n								)\n", "								if ta == nil {\n									ta, taErr = GetEntityConfiguration(req.TrustAnchor)\n								}\n"),
 ("bug", "C31", ("discovery.go", "	var taOnce sync.Once\n", "	var taOnce sync.Once\n	visited := make(map[string]int)\n"), ("discovery.go", "								collectedEntity := &CollectedEntity{\n", "								visited[subordinateID]++\n								collectedEntity := &CollectedEntity{\n")),
 ("bug", "C31", ("discovery.go", "	var taOnce sync.Once\n", "	var taOnce sync.Once\n	count := 0\n"), ("discovery.go", "								collectedEntity := &CollectedEntity{\n", "								count++\n								collectedEntity := &CollectedEntity{\n")),
 ("bug", "C31", "discovery.go", "								entityChan <- collectedEntity\n", "								entityChan <- collectedEntity\n								if len(req.Claims) == 0 {\n									collectedEntity.EntityID = entityConfig.Subject\n								}\n"),
 ("bug", "C31", "discovery.go", "				for _, subordinateID := range subordinates {\n					run(", "				var subordinateID string\n				for _, subordinateID = range subordinates {\n					run("),
 ("bug", "C31", "discovery.go", "								entityChan <- collectedEntity\n", "								seenMu.Lock()\n								entities = append(entities, collectedEntity)\n								seenMu.Unlock()\n								entityChan <- collectedEntity\n								entities = append(entities, collectedEntity)\n"),
 ("bug", "C31", "trustresolver.go", "			remainingLifetime := time.Until", "			stmt.Issuer = issID\n			remainingLifetime := time.Until"),
 ("bug", "C31", "trustresolver.go", "		return stmt, nil\n	}\n	return obtainAnd", "		stmt.ExpiresAt = unixtime.Unixtime{Time: stmt.ExpiresAt.UTC()}\n		return stmt, nil\n	}\n	return obtainAnd"),
 ("bug", "C31", ("trustresolver.go", "func getEntityStatementOrConfiguration(", "var inFlight = map[string]bool{}\n\nfunc getEntityStatementOrConfiguration("), ("trustresolver.go", "			remainingLifetime := time.Until", "			if inFlight[subID+issID] {\n				return\n			}\n			inFlight[subID+issID] = true\n			defer delete(inFlight, subID+issID)\n			remainingLifetime := time.Until")),
 ("bug", "C31", ("trustresolver.go", "func httpGetEntityConfiguration(", "var lastFetched string\n\nfunc httpGetEntityConfiguration("), ("trustresolver.go", "	internal.Logf(\"Obtaining entity configuration from %+q\", uri)\n", "	internal.Logf(\"Obtaining entity configuration from %+q (after %q)\", uri, lastFetched)\n	lastFetched = uri\n")),
 ("same", "C31", ("trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	return c.JWT, c.expiration\n", "	c.mu.RLock()\n	defer c.mu.RUnlock()\n	return c.JWT, c.expiration\n"), ("trustmark_refresher.go", "sync.Mutex //", "sync.RWMutex //")),
 ("same", "C31", "trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	return c.JWT, c.expiration\n", "	c.mu.Lock()\n	jwt, exp := c.JWT, c.expiration\n	c.mu.Unlock()\n	return jwt, exp\n"),
 ("same", "C31", "trustmark_refresher.go", "	if time.Since(c.lastTried.Time) < time.Minute {\n		return false\n	}\n	c.lastTried = unixtime.Now()\n	return true\n}\n", "	return c.tryLocked()\n}\n\nfunc (c *EntityConfigurationTrustMarkConfig) tryLocked() bool {\n	if time.Since(c.lastTried.Time) < time.Minute {\n		return false\n	}\n	c.lastTried = unixtime.Now()\n	return true\n}\n"),
 ("same", "C31", ("trustmark_refresher.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n	return c.JWT, c.expiration\n", "	c.lock()\n	defer c.unlock()\n	return c.JWT, c.expiration\n"), ("trustmark_refresher.go", "// current returns", "func (c *EntityConfigurationTrustMarkConfig) lock()   { c.mu.Lock() }\nfunc (c *EntityConfigurationTrustMarkConfig) unlock() { c.mu.Unlock() }\n\n// current returns")),
 ("same", "C31", "trustmark_refresher.go", "			go c.refresh()\n", "			go func() {\n				if err := c.refresh(); err != nil {\n					internal.Log(err)\n				}\n			}()\n"),
 ("same", "C31", ("trustmark_refresher.go", "			go c.refresh()\n", "			c.refreshInBackground()\n"), ("trustmark_refresher.go", "// current returns", "func (c *EntityConfigurationTrustMarkConfig) refreshInBackground() {\n	go c.refresh()\n}\n\n// current returns")),
 ("same", "C31", ("discovery.go", "			seenMu.Lock()\n			if", "			if"), ("discovery.go", "			seenMu.Unlock()\n", ""), ("discovery.go", "	var seenMu sync.Mutex\n", "")),
 ("same", "C31", ("discovery.go", "		doneChan <- struct{}{}\n", "		close(doneChan)\n")),
 ("same", "C31", ("discovery.go", "	go func() {\n		for e := range entityChan {\n", "	go func() {\n		defer close(doneChan)\n		for e := range entityChan {\n"), ("discovery.go", "		doneChan <- struct{}{}\n", "")),
 ("same", "C31", ("discovery.go", "			defer wg.Done()\n			defer func() { <-sem }() // release\n			task()\n", "			defer func() {\n				<-sem\n				wg.Done()\n			}()\n			task()\n")),
 ("same", "C31", ("discovery.go", "	sem := make(chan", "	var wg sync.WaitGroup\n	sem := make(chan"), ("discovery.go", "	}()\n\n	var wg sync.WaitGroup\n", "	}()\n")),
 ("same", "C31", ("discovery.go", "	// Wait and close channels\n	go func() {\n		wg.Wait()\n		close(entityChan)\n	}()\n\n	<-doneChan\n", "	wg.Wait()\n	close(entityChan)\n\n	<-doneChan\n")),
 ("same", "C31", ("discovery.go", "		go func() {\n			defer wg.Done()\n			defer func() { <-sem }() // release\n			task()\n		}()\n", "		go work(task, &wg, sem)\n"), ("discovery.go", "const maxCollectWorkers", "func work(task func(), wg *sync.WaitGroup, sem chan struct{}) {\n	defer wg.Done()\n	task()\n	<-sem\n}\n\nconst maxCollectWorkers")),
 ("same", "C31", ("discovery.go", "				if !d.visit(authority.EntityID) {", "				id := authority.EntityID\n				d.mu.Lock()\n				visited := d.visitedEntities.Has(id)\n				if !visited {\n					d.visitedEntities.Add(id)\n				}\n				d.mu.Unlock()\n				if visited {")),
 ("same", "C31", ("discovery.go", "	for _, authority := range authorities {\n		run(\n", "	for i := range authorities {\n		authority := authorities[i]\n		run(\n")),
 ("same", "C31", ("discovery.go", "		for e := range entityChan {\n", "		for {\n			e, ok := <-entityChan\n			if !ok {\n				break\n			}\n")),
 ("same", "C31", ("discovery.go", "								taOnce.Do(\n									func() {\n										ta, taErr = GetEntityConfiguration(req.TrustAnchor)\n									},\n								)\n								if", "								ta, taErr := anchor()\n								if"), ("discovery.go", "	seen := make(map[string]bool)\n", "	anchor := func() (*EntityStatement, error) {\n		taOnce.Do(func() { ta, taErr = GetEntityConfiguration(req.TrustAnchor) })\n		return ta, taErr\n	}\n	seen := make(map[string]bool)\n")),
 ("same", "C31", "trustresolver.go", "			remainingLifetime := time.Until(stmt.ExpiresAt.Time)\n			totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)\n", "			exp, iat := stmt.ExpiresAt.Time, stmt.IssuedAt.Time\n			remainingLifetime := time.Until(exp)\n			totalLifetime := exp.Sub(iat)\n"),
 ("same", "C31", ("trustresolver.go", "		go func() {\n			remaining", "		refresh := func() {\n			remaining"), ("trustresolver.go", "			}\n		}()\n		return stmt, nil", "			}\n		}\n		go refresh()\n		return stmt, nil")),
 ("same", "C31", ("trustresolver.go", "func getEntityStatementOrConfiguration(", "var inFlight = map[string]bool{}\nvar inFlightMu sync.Mutex\n\nfunc getEntityStatementOrConfiguration("), ("trustresolver.go", "			remainingLifetime := time.Until", "			inFlightMu.Lock()\n			busy := inFlight[subID+issID]\n			inFlight[subID+issID] = true\n			inFlightMu.Unlock()\n			if busy {\n				return\n			}\n			defer func() {\n				inFlightMu.Lock()\n				delete(inFlight, subID+issID)\n				inFlightMu.Unlock()\n			}()\n			remainingLifetime := time.Until"), ("trustresolver.go", "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n")),
 ("same", "C31", ("trustresolver.go", "func getEntityStatementOrConfiguration(", "var inFlight sync.Map\n\nfunc getEntityStatementOrConfiguration("), ("trustresolver.go", "			remainingLifetime := time.Until", "			if _, busy := inFlight.LoadOrStore(subID+issID, true); busy {\n				return\n			}\n			defer inFlight.Delete(subID + issID)\n			remainingLifetime := time.Until"), ("trustresolver.go", "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n")),
 ("same", "C31", ("internal/logging.go", "func EnableDebugLogging() {\n	debugLogging = true\n", "func EnableDebugLogging() {\n	setDebug(true)\n"), ("internal/logging.go", "// DisableDebug", "func setDebug(on bool) {\n	debugLogging = on\n}\n\n// DisableDebug")),
 # C31
 ("bug", "C31", ("cache/cache.go", "	c.mu.RLock()\n", ""), ("cache/cache.go", "	c.mu.RUnlock()\n", "")),
 ("bug", "C31", ("cache/cache.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n", "")),
 ("bug", "C31", ("cache/cache.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n", "	c.mu.RLock()\n	defer c.mu.RUnlock()\n")),
 ("same", "C31", ("cache/cache.go", "	c.mu.RLock()\n	entryV, ok := c.c.Get(key)\n	c.mu.RUnlock()\n", "	entryV, ok := c.lookup(key)\n"), ("cache/cache.go", "// Set implements the Cache", "func (c cacheWrapper) lookup(key string) (any, bool) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	return c.c.Get(key)\n}\n\n// Set implements the Cache")),
 ("same", "C31", ("cache/cache.go", "	mu *sync.RWMutex", "	mu *sync.Mutex"), ("cache/cache.go", "		mu: &sync.RWMutex{},", "		mu: &sync.Mutex{},"), ("cache/cache.go", "	c.mu.RLock()\n", "	c.mu.Lock()\n"), ("cache/cache.go", "	c.mu.RUnlock()\n", "	c.mu.Unlock()\n")),
 ("same", "C31", ("cache/cache.go", "func newCacheWrapper(", "var storeMu sync.RWMutex\n\nfunc newCacheWrapper("), ("cache/cache.go", "	c.mu.RLock()\n", "	storeMu.RLock()\n"), ("cache/cache.go", "	c.mu.RUnlock()\n", "	storeMu.RUnlock()\n"), ("cache/cache.go", "	c.mu.Lock()\n	defer c.mu.Unlock()\n", "	storeMu.Lock()\n	defer storeMu.Unlock()\n")),
 # C37
 ("bug", "C37", "metadata.go", "	return append(entityTypes, slices.Sorted(maps.Keys(m.Extra))...)\n", "	if len(entityTypes) > 0 {\n		return\n	}\n	return append(entityTypes, slices.Sorted(maps.Keys(m.Extra))...)\n"),
 ("bug", "C37", "metadata.go", "	value := reflect.ValueOf(m)\n	typ := value.Type()\n	for i := 0; i < value.NumField(); i++ {\n		field := value.Field(i)\n		if field.Kind() == reflect.Ptr && !field.IsNil() {\n			structField := typ.Field(i)\n			jsonTag := structField.Tag.Get(\"json\")\n			jsonTag = strings.TrimSuffix(jsonTag, \",omitempty\")\n			entityTypes = append(entityTypes, jsonTag)\n		}\n	}\n", "	value := reflect.ValueOf(m)\n	typ := value.Type()\n	for i := 0; i < value.NumField()-2; i++ {\n		field := value.Field(i)\n		if field.Kind() == reflect.Ptr && !field.IsNil() {\n			structField := typ.Field(i)\n			jsonTag := structField.Tag.Get(\"json\")\n			jsonTag = strings.TrimSuffix(jsonTag, \",omitempty\")\n			entityTypes = append(entityTypes, jsonTag)\n		}\n	}\n"),
 ("bug", "C37", "metadata.go", "	value := reflect.ValueOf(m)\n	typ := value.Type()\n	for i := 0; i < value.NumField(); i++ {\n		field := value.Field(i)\n		if field.Kind() == reflect.Ptr && !field.IsNil() {\n			structField := typ.Field(i)\n			jsonTag := structField.Tag.Get(\"json\")\n			jsonTag = strings.TrimSuffix(jsonTag, \",omitempty\")\n			entityTypes = append(entityTypes, jsonTag)\n		}\n	}\n", "	value := reflect.ValueOf(m)\n	typ := value.Type()\n	for i := 0; i < value.NumField(); i++ {\n		field := value.Field(i)\n		if field.Kind() == reflect.Ptr && !field.IsNil() {\n			structField := typ.Field(i)\n			jsonTag := structField.Tag.Get(\"json\")\n			entityTypes = append(entityTypes, jsonTag)\n		}\n	}\n"),
 ("bug", "C37", "metadata.go", "	value := reflect.ValueOf(m)\n	typ := value.Type()\n	for i := 0; i < value.NumField(); i++ {\n		field := value.Field(i)\n		if field.Kind() == reflect.Ptr && !field.IsNil() {\n			structField := typ.Field(i)\n			jsonTag := structField.Tag.Get(\"json\")\n			jsonTag = strings.TrimSuffix(jsonTag, \",omitempty\")\n			entityTypes = append(entityTypes, jsonTag)\n		}\n	}\n", "	value := reflect.ValueOf(m)\n	typ := value.Type()\n	for i := 0; i < value.NumField(); i++ {\n		field := value.Field(i)\n		if field.Kind() == reflect.Ptr && field.CanInterface() {\n			structField := typ.Field(i)\n			jsonTag := structField.Tag.Get(\"json\")\n			jsonTag = strings.TrimSuffix(jsonTag, \",omitempty\")\n			entityTypes = append(entityTypes, jsonTag)\n		}\n	}\n"),
 ("bug", "C37", "metadata.go", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if str != \"\" {\n						iterator(entityTag, str)\n					}\n					break\n				}\n", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if str != \"\" {\n						iterator(entityTag, str)\n					}\n					return\n				}\n"),
 ("bug", "C37", "metadata.go", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if str != \"\" {\n						iterator(entityTag, str)\n					}\n					break\n				}\n", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if str != \"\" {\n						iterator(structField.Name, str)\n					}\n					break\n				}\n"),
 ("bug", "C37", "metadata.go", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if str != \"\" {\n						iterator(entityTag, str)\n					}\n					break\n				}\n", "				if strings.HasPrefix(jsonTag, tag) && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if str != \"\" {\n						iterator(entityTag, str)\n					}\n					break\n				}\n"),
 ("bug", "C37", "metadata.go", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if str != \"\" {\n						iterator(entityTag, str)\n					}\n					break\n				}\n", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if len(str) > 1 {\n						iterator(entityTag, str)\n					}\n					break\n				}\n"),
 ("bug", "C37", "metadata.go", "func (m OAuthClientMetadata) GuessDisplayName() string {\n	if dn := m.DisplayName; dn != \"\" {\n		return dn\n	}\n	return m.ClientName", "func (m OAuthClientMetadata) GuessDisplayName() string {\n	if dn := m.DisplayName; dn != \"\" {\n		return dn\n	}\n	return m.OrganizationName"),
 ("bug", "C37", "metadata.go", "func (m OAuthProtectedResourceMetadata) GuessDisplayName() string {\n	if dn := m.DisplayName; dn != \"\" {", "func (m OAuthProtectedResourceMetadata) GuessDisplayName() string {\n	if dn := m.DisplayName; dn != \"\" && m.ResourceName == \"\" {"),
 ("bug", "C37", "metadata.go", "				result[entityTag] = displayNamer.GuessDisplayName()\n", "				if n := displayNamer.GuessDisplayName(); n != m.FederationEntity.GuessDisplayName() {\n					result[entityTag] = n\n				}\n"),
 ("bug", "C37", "metadata.go", "		if value.IsZero() {\n			continue\n		}\n\n		return decodeInto(value.Interface(), metadata)\n", "		if value.IsZero() {\n			return nil\n		}\n\n		return decodeInto(value.Interface(), metadata)\n"),
 ("bug", "C37", "metadata.go", "		if j == \"-\" || j != entityType {\n			continue\n		}\n", "		if j == \"-\" || !strings.HasPrefix(entityType, j) {\n			continue\n		}\n"),
 ("bug", "C37", "metadata.go", "	return decodeInto(metadataMap, metadata)\n", "	_ = metadataMap\n	return decodeInto(m.Extra, metadata)\n"),
 ("bug", "C37", "metadata.go", "	if err != nil {\n		return errors.Errorf(\"failed to marshal metadata: %s\", err)\n	}\n\n	return json.Unmarshal(jsonMetadata, metadata)\n", "	if err != nil {\n		return errors.Errorf(\"failed to marshal metadata: %s\", err)\n	}\n\n	return json.Unmarshal(jsonMetadata, &metadata)\n"),
 ("bug", "C37", "discovery.go", "	uiInfo := e.UIInfos[entityType]\n	uiInfoValue", "	var uiInfo UIInfo\n	uiInfoValue"),
 ("bug", "C37", "discovery.go", "	if !fieldFound {\n		if uiInfo.Extra == nil {\n", "	if !fieldFound {\n		if uiInfo.Extra == nil || len(uiInfo.Extra) > 0 {\n"),
 ("bug", "C37", "discovery.go", "	e.UIInfos[entityType] = uiInfo\n	return nil\n", "	if fieldFound {\n		e.UIInfos[entityType] = uiInfo\n	}\n	return nil\n"),
 ("bug", "C37", "discovery.go", "		tagName, _, _ := strings.Cut(structField.Tag.Get(\"json\"), \",\")\n", "		tagName, _, _ := strings.Cut(structField.Tag.Get(\"json\"), \"_\")\n"),
 ("bug", "C37", "discovery.go", "	LogoURI        string         `json:\"logo_uri,omitempty\"`\n	PolicyURI      string         `json:\"policy_uri,omitempty\"`\n", "	LogoURI        string         `json:\"policy_uri,omitempty\"`\n	PolicyURI      string         `json:\"policy_uri,omitempty\"`\n"),
 ("same", "C37", "metadata.go", "	value := reflect.ValueOf(m)\n	typ := value.Type()\n	for i := 0; i < value.NumField(); i++ {\n		field := value.Field(i)\n		if field.Kind() == reflect.Ptr && !field.IsNil() {\n			structField := typ.Field(i)\n			jsonTag := structField.Tag.Get(\"json\")\n			jsonTag = strings.TrimSuffix(jsonTag, \",omitempty\")\n			entityTypes = append(entityTypes, jsonTag)\n		}\n	}\n", "	value := reflect.ValueOf(&m).Elem()\n	for i := range value.NumField() {\n		field := value.Field(i)\n		if field.Kind() != reflect.Pointer || field.IsZero() {\n			continue\n		}\n		name, _, _ := strings.Cut(value.Type().Field(i).Tag.Get(\"json\"), \",\")\n		entityTypes = append(entityTypes, name)\n	}\n"),
 ("same", "C37", "metadata.go", "	value := reflect.ValueOf(m)\n	typ := value.Type()\n	for i := 0; i < value.NumField(); i++ {\n		field := value.Field(i)\n		if field.Kind() == reflect.Ptr && !field.IsNil() {\n			structField := typ.Field(i)\n			jsonTag := structField.Tag.Get(\"json\")\n			jsonTag = strings.TrimSuffix(jsonTag, \",omitempty\")\n			entityTypes = append(entityTypes, jsonTag)\n		}\n	}\n", "	if m.OpenIDProvider != nil {\n		entityTypes = append(entityTypes, \"openid_provider\")\n	}\n	if m.RelyingParty != nil {\n		entityTypes = append(entityTypes, \"openid_relying_party\")\n	}\n	if m.OAuthAuthorizationServer != nil {\n		entityTypes = append(entityTypes, \"oauth_authorization_server\")\n	}\n	if m.OAuthClient != nil {\n		entityTypes = append(entityTypes, \"oauth_client\")\n	}\n	if m.OAuthProtectedResource != nil {\n		entityTypes = append(entityTypes, \"oauth_resource\")\n	}\n	if m.FederationEntity != nil {\n		entityTypes = append(entityTypes, \"federation_entity\")\n	}\n"),
 ("same", "C37", "metadata.go", "	return append(entityTypes, slices.Sorted(maps.Keys(m.Extra))...)\n", "	_ = maps.Keys[map[string]any]\n	var more []string\n	for k := range m.Extra {\n		more = append(more, k)\n	}\n	slices.Sort(more)\n	entityTypes = append(entityTypes, more...)\n	return\n"),
 ("same", "C37", "metadata.go", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if str != \"\" {\n						iterator(entityTag, str)\n					}\n					break\n				}\n", "				if jsonTag != tag {\n					continue\n				}\n				if str, ok := subField.Interface().(string); ok && len(str) > 0 {\n					iterator(entityTag, str)\n				}\n				break\n"),
 ("same", "C37", "metadata.go", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.Interface().(string)\n					if str != \"\" {\n						iterator(entityTag, str)\n					}\n					break\n				}\n", "				if jsonTag == tag && subField.Kind() == reflect.String {\n					str := subField.String()\n					if str != \"\" {\n						iterator(entityTag, str)\n					}\n					break\n				}\n"),
 ("same", "C37", "metadata.go", "func (m OAuthClientMetadata) GuessDisplayName() string {\n	if dn := m.DisplayName; dn != \"\" {\n		return dn\n	}\n	return m.ClientName", "func (m OAuthClientMetadata) GuessDisplayName() string {\n	name := m.ClientName\n	if len(m.DisplayName) != 0 {\n		name = m.DisplayName\n	}\n	return name"),
 ("same", "C37", "metadata.go", "			elem := field.Elem().Interface()\n			displayNamer, ok := elem.(DisplayNameGuesser)\n			if ok {\n				result[entityTag] = displayNamer.GuessDisplayName()\n			}\n", "			if displayNamer, ok := field.Interface().(DisplayNameGuesser); ok {\n				result[entityTag] = displayNamer.GuessDisplayName()\n			}\n"),
 ("same", "C37", "metadata.go", "	for i := 0; i < t.NumField(); i++ {\n		j, ok := t.Field(i).Tag.Lookup(\"json\")\n		if !ok {\n			continue\n		}\n		j = strings.TrimSuffix(j, \",omitempty\")\n		if j == \"-\" || j != entityType {\n			continue\n		}\n\n		value := v.Elem().FieldByName(t.Field(i).Name)\n		if value.IsZero() {\n			continue\n		}\n\n		return decodeInto(value.Interface(), metadata)\n	}\n", "	for i := 0; i < t.NumField(); i++ {\n		name := strings.Split(t.Field(i).Tag.Get(\"json\"), \",\")[0]\n		if value := v.Elem().Field(i); name == entityType && name != \"-\" && !value.IsNil() {\n			return decodeInto(value.Interface(), metadata)\n		}\n	}\n"),
 ("same", "C37", "discovery.go", "	if !fieldFound {\n		if uiInfo.Extra == nil {\n			uiInfo.Extra = make(map[string]any)\n		}\n		uiInfo.Extra[jsonTag] = value\n	}\n", "	if !fieldFound {\n		extra := uiInfo.Extra\n		if extra == nil {\n			extra = map[string]any{}\n		}\n		extra[jsonTag] = value\n		uiInfo.Extra = extra\n	}\n"),
 ("same", "C37", "discovery.go", "			fieldValue := uiInfoValue.Field(i)\n			if fieldValue.CanSet() {\n				val := reflect.ValueOf(value)\n				if !val.Type().AssignableTo(fieldValue.Type()) {\n					return fmt.Errorf(\n						\"cannot assign value of type %s to field %s of type %s\", val.Type(), jsonTag, fieldValue.Type(),\n					)\n				}\n				fieldValue.Set(val)\n				fieldFound = true\n				break\n			}\n", "			val := reflect.ValueOf(value)\n			if !val.Type().AssignableTo(structField.Type) {\n				return fmt.Errorf(\"cannot assign value of type %T to field %s\", value, jsonTag)\n			}\n			uiInfoValue.FieldByName(structField.Name).Set(val)\n			fieldFound = true\n			break\n"),
 # C32
 ("bug", "C32", "discovery.go", "len(arrays.Intersect(et, req.EntityTypes)) == 0 {", "len(arrays.Intersect(et, req.EntityTypes)) == len(req.EntityTypes) {"),
 ("bug", "C32", "discovery.go", "!matchDisplayName(req.NameQuery, displayNames, MatchModeFuzzy) {\n								includeEntity = false", "!matchDisplayName(req.NameQuery, displayNames, MatchModeFuzzy) {\n								includeEntity = len(req.TrustMarkTypes) > 0"),
 ("bug", "C32", "discovery.go", "MatchModeFuzzy) {", "MatchModeSubstringCaseInsensitive) {"),
 ("bug", "C32", "discovery.go", "								trustMarkInfo := entityConfig.TrustMarks.issuedTo(subordinateID).FindByID(trustMarkType)\n", "								trustMarkInfo := entityConfig.TrustMarks.FindByID(trustMarkType)\n"),
 ("bug", "C32", "discovery.go", "								if taErr != nil || trustMarkInfo.VerifyFederation(", "								if taErr == nil && trustMarkInfo.VerifyFederation("),
 ("bug", "C32", "discovery.go", "trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {\n									includeEntity = false\n									break", "trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {\n									includeEntity = false\n									continue\n								}\n								if includeEntity = true; len(req.TrustMarkTypes) > 2 {\n									break"),
 ("bug", "C32", "discovery.go", "									includeEntity = false\n									break\n								}\n								taOnce", "									continue\n								}\n								taOnce"),
 ("bug", "C32", "discovery.go", "							if entityConfig.Metadata.FederationEntity != nil &&\n								entityConfig", "							if includeEntity && entityConfig.Metadata.FederationEntity != nil &&\n								entityConfig"),
 ("bug", "C32", "discovery.go", "			if !seen[e.EntityID] {\n				seen[e.EntityID] = true\n				entities = append(entities, e)\n			}\n", "			if !seen[e.EntityID] || e.TrustMarks == nil {\n				seen[e.EntityID] = true\n				entities = append(entities, e)\n			}\n"),
 ("bug", "C32", "discovery.go", "								if req.Claims == nil || slices.Contains(req.Claims, \"entity_types\") {", "								if slices.Contains(req.Claims, \"entity_types\") {"),
 ("bug", "C32", "discovery.go", "									\"policy_uri\",\n									\"information_uri\",\n", "									\"policy_uri\",\n"),
 ("bug", "C32", "discovery.go", "										if slices.Contains(req.Claims, \"metadata\") {\n", "										if len(req.Claims) > 0 {\n"),
 ("bug", "C32", "discovery.go", "										if slices.Contains(req.Claims, \"trust_chain\") {\n", "										if slices.Contains(req.Claims, \"metadata\") {\n"),
 ("bug", "C32", "discovery.go", "										Subject:     subordinateID,\n										TrustAnchor: []string{req.TrustAnchor},", "										Subject:     subordinateID,\n										TrustAnchor: []string{req.TrustAnchor},\n										EntityTypes: et,"),
 ("bug", "C32", "discovery.go", "										TrustAnchor: []string{req.TrustAnchor},", "										TrustAnchor: []string{authority.EntityID, subordinateID},"),
 ("bug", "C32", "discovery.go", "entityConfig.TrustMarks.issuedTo(subordinateID).VerifiedFederation(", "entityConfig.TrustMarks.VerifiedFederation("),
 ("bug", "C32", "discovery.go", "										if res.TrustMarks != nil && slices.Contains(req.Claims, \"trust_marks\") {", "										if res.TrustMarks != nil {"),
 ("bug", "C32", "discovery.go", "								if collectedEntity.TrustMarks == nil && slices", "								if collectedEntity.metadata == nil && collectedEntity.TrustMarks == nil && slices"),
 ("bug", "C32", "discovery.go", "								for _, nestedEntity := range nested {\n									entityChan <- nestedEntity\n								}\n", "								for _, nestedEntity := range nested {\n									entityChan <- nestedEntity\n									if req.Claims == nil {\n										break\n									}\n								}\n"),
 ("bug", "C32", "discovery.go", "								nested := d.collect(req, NewTrust", "								nestedReq := req\n								nestedReq.TrustAnchor = subordinateID\n								nested := d.collect(nestedReq, NewTrust"),
 ("bug", "C32", "discovery.go", "								nested := d.collect(req, NewTrustAnchorsFromEntityIDs(subordinateID)...)", "								nested := d.collect(req, NewTrustAnchorsFromEntityIDs(subordinates...)...)"),
 ("bug", "C32", "discovery.go", "												log.Error(err.Error())\n											}\n", "												log.Error(err.Error())\n											}\n											break\n"),
 ("bug", "C32", "discovery.go", "										if displayName != \"\" {", "										if displayName != \"\" || entityType == \"x_type\" {"),
 ("bug", "C32", "discovery.go", "													collectedEntity.setUIInfoField(\n														entityType, c, value,\n													)", "													collectedEntity.setUIInfoField(\n														et[0], c, value,\n													)"),
 ("bug", "C32", "discovery.go", "		collectedNames[i] = name\n		i++\n", "		collectedNames[i] = name\n		if len(name) > 14 {\n			i++\n		}\n"),
 ("bug", "C32", "discovery.go", "									collectedEntity.EntityTypes = et\n", "									collectedEntity.EntityTypes = arrays.Intersect(et, req.EntityTypes)\n"),
 ("bug", "C32", "discovery.go", "							if entityConfig.Metadata == nil {\n								internal.Log(\"No metadata present -> skipping\")\n								return\n							}\n", "							if entityConfig.Metadata == nil {\n								internal.Log(\"No metadata present -> skipping\")\n								entityChan <- &CollectedEntity{EntityID: subordinateID}\n								return\n							}\n"),
 ("bug", "C32", "discovery.go", "				for _, subordinateID := range subordinates {\n					run(", "				for i, subordinateID := range subordinates {\n					if i > 0 && len(req.Claims) > 5 {\n						break\n					}\n					run("),
 ("bug", "C32", "discovery.go", "	return d.collect(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)\n}\n\nconst", "	return d.collect(req, NewTrustAnchorsFromEntityIDs(append(req.TrustMarkTypes, req.TrustAnchor)...)...)\n}\n\nconst"),
 ("same", "C32", "discovery.go", "							includeEntity := true\n							if req.EntityTypes != nil && len(arrays.Intersect(et, req.EntityTypes)) == 0 {\n								includeEntity = false\n							}\n							if req.NameQuery != \"\" && !matchDisplayName(req.NameQuery, displayNames, MatchModeFuzzy) {\n								includeEntity = false\n							}\n", "							includeEntity := (req.EntityTypes == nil || slices.ContainsFunc(et, func(t string) bool { return slices.Contains(req.EntityTypes, t) })) &&\n								(req.NameQuery == \"\" || matchDisplayName(req.NameQuery, displayNames, MatchModeFuzzy))\n							_ = arrays.Intersect[string]\n"),
 ("same", "C32", "discovery.go", "								nested := d.collect(req, NewTrustAnchorsFromEntityIDs(subordinateID)...)\n", "								nested := d.collect(req, TrustAnchor{EntityID: subordinateID})\n"),
 ("same", "C32", ("discovery.go", "	var wg sync.WaitGroup\n\n	// Wrapper to acquire worker token\n	run := func(task func()) {\n		sem <- struct{}{} // acquire\n		wg.Add(1)\n		go func() {\n			defer wg.Done()\n			defer func() { <-sem }() // release\n			task()\n		}()\n	}\n", "	var wg sync.WaitGroup\n	run := func(task func()) { d.start(&wg, sem, task) }\n"), ("discovery.go", "type matchMode string\n", "func (d *SimpleEntityCollector) start(wg *sync.WaitGroup, sem chan struct{}, task func()) {\n	sem <- struct{}{}\n	wg.Add(1)\n	go func() {\n		defer func() {\n			<-sem\n			wg.Done()\n		}()\n		task()\n	}()\n}\n\ntype matchMode string\n")),
 ("same", "C32", "discovery.go", "	go func() {\n		for e := range entityChan {\n			seenMu.Lock()\n			if !seen[e.EntityID] {\n				seen[e.EntityID] = true\n				entities = append(entities, e)\n			}\n			seenMu.Unlock()\n		}\n		doneChan <- struct{}{}\n	}()\n", "	go func() {\n		defer close(doneChan)\n		for {\n			e, open := <-entityChan\n			if !open {\n				return\n			}\n			seenMu.Lock()\n			if _, known := seen[e.EntityID]; !known {\n				seen[e.EntityID] = true\n				entities = append(entities, e)\n			}\n			seenMu.Unlock()\n		}\n	}()\n"),
 ("same", "C32", ("discovery.go", "	go func() {\n		for e := range entityChan {\n			seenMu.Lock()\n			if !seen[e.EntityID] {\n				seen[e.EntityID] = true\n				entities = append(entities, e)\n			}\n			seenMu.Unlock()\n		}\n		doneChan <- struct{}{}\n	}()\n", "	add := func(e *CollectedEntity) {\n		seenMu.Lock()\n		defer seenMu.Unlock()\n		if seen[e.EntityID] {\n			return\n		}\n		seen[e.EntityID] = true\n		entities = append(entities, e)\n	}\n"), ("discovery.go", "								entityChan <- collectedEntity\n", "								add(collectedEntity)\n"), ("discovery.go", "									entityChan <- nestedEntity\n", "									add(nestedEntity)\n"), ("discovery.go", "	// Wait and close channels\n	go func() {\n		wg.Wait()\n		close(entityChan)\n	}()\n\n	<-doneChan\n	return\n", "	wg.Wait()\n	return\n"), ("discovery.go", "	entityChan := make(chan *CollectedEntity)\n	doneChan := make(chan struct{})\n", "")),
 ("same", "C32", ("discovery.go", "							for _, trustMarkType := range req.TrustMarkTypes {\n								trustMarkInfo := entityConfig.TrustMarks.issuedTo(subordinateID).FindByID(trustMarkType)\n								if trustMarkInfo == nil {\n									includeEntity = false\n									break\n								}\n								taOnce.Do(\n									func() {\n										ta, taErr = GetEntityConfiguration(req.TrustAnchor)\n									},\n								)\n								if taErr != nil || trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {\n									includeEntity = false\n									break\n								}\n							}\n", "							anchor := func() (*EntityStatement, error) {\n								taOnce.Do(\n									func() {\n										ta, taErr = GetEntityConfiguration(req.TrustAnchor)\n									},\n								)\n								return ta, taErr\n							}\n							includeEntity = includeEntity && hasTrustMarks(entityConfig.TrustMarks.issuedTo(subordinateID), req.TrustMarkTypes, anchor)\n"), ("discovery.go", "type matchMode string\n", "func hasTrustMarks(marks TrustMarkInfos, types []string, anchor func() (*EntityStatement, error)) bool {\n	for _, t := range types {\n		info := marks.FindByID(t)\n		if info == nil {\n			return false\n		}\n		ta, err := anchor()\n		if err != nil {\n			return false\n		}\n		if err = info.VerifyFederation(&ta.EntityStatementPayload); err != nil {\n			return false\n		}\n	}\n	return true\n}\n\ntype matchMode string\n")),
 ("same", "C32", "discovery.go", "								if slices.ContainsFunc(\n									req.Claims, func(c string) bool {\n										return c == \"metadata\" || c == \"trust_chain\"\n									},\n								) {\n", "								if slices.Contains(req.Claims, \"metadata\") || slices.Contains(req.Claims, \"trust_chain\") {\n"),
 ("same", "C32", "discovery.go", "								for _, c := range uiInfoClaims {\n									if req.Claims == nil || slices.Contains(req.Claims, c) {\n", "								wanted := func(c string) bool { return req.Claims == nil || slices.Contains(req.Claims, c) }\n								for _, c := range uiInfoClaims {\n									if wanted(c) {\n"),
 ("same", "C32", "discovery.go", "										if res.TrustMarks != nil && slices.Contains(req.Claims, \"trust_marks\") {\n											collectedEntity.TrustMarks = res.TrustMarks\n										}\n										if slices.Contains(req.Claims, \"metadata\") {\n											collectedEntity.metadata = res.Metadata\n										}\n", "										for _, c := range req.Claims {\n											switch c {\n											case \"trust_marks\":\n												collectedEntity.TrustMarks = res.TrustMarks\n											case \"metadata\":\n												collectedEntity.metadata = res.Metadata\n											}\n										}\n"),
 ("same", "C32", "discovery.go", "	collectedNames := make([]string, len(names))\n	i := 0\n	for _, name := range names {\n		collectedNames[i] = name\n		i++\n	}\n", "	var collectedNames []string\n	for _, name := range names {\n		collectedNames = append(collectedNames, name)\n	}\n"),
 # C38
 ("bug", "C38", "discovery.go", "			if approved = f.Filter(e); !approved {\n				break\n			}", "			if approved = f.Filter(e); approved {\n				break\n			}"),
 ("bug", "C38", "discovery.go", "			if approved = f.Filter(e); !approved {\n				break\n			}", "			approved = f.Filter(e)"),
 ("bug", "C38", "discovery.go", "		Filters: append(\n			[]EntityCollectionFilter{\n				EntityCollectionFilterVerifiedChains{\n					TrustAnchors: NewTrustAnchorsFromEntityIDs(req.TrustAnchor),\n				},\n			}, d.Filters...,\n		),", "		Filters: d.Filters,"),
 ("bug", "C38", "discovery.go", "	return confirmedValid\n", "	return !confirmedValid\n"),
 ("bug", "C38", "discovery.go", "		Collector: d.Collector,\n", "		Collector: nil,\n"),
 ("bug", "C38", "discovery.go", "		if approved {\n			entities = append(entities, e)\n		}", "		if approved {\n			entities = append([]*CollectedEntity{e}, entities...)\n		}"),
 ("bug", "C38", "discovery.go", "	if e.metadata != nil {\n		return e.metadata\n	}\n", ""),
 ("bug", "C38", "discovery.go", "			return utils.ReflectIsSubsetOf(neededScopes, metadata.OpenIDProvider.ScopesSupported)", "			return utils.ReflectIsSubsetOf(metadata.OpenIDProvider.ScopesSupported, neededScopes)"),
 ("bug", "C38", "discovery.go", "			return utils.ReflectIsSubsetOf(neededGrantTypes, metadata.OpenIDProvider.GrantTypesSupported)", "			return utils.ReflectIsSubsetOf(neededGrantTypes, metadata.OpenIDProvider.ScopesSupported)"),
 ("bug", "C38", "discovery.go", "			return utils.ReflectIsSubsetOf(neededGrantTypes, metadata.OpenIDProvider.GrantTypesSupported)", "			return metadata.OpenIDProvider.GrantTypesSupported == nil || utils.ReflectIsSubsetOf(neededGrantTypes, metadata.OpenIDProvider.GrantTypesSupported)"),
 ("bug", "C38", "discovery.go", "ClientRegistrationTypesSupported, oidfedconst.ClientRegistrationTypeExplicit,", "ClientRegistrationTypesSupported, oidfedconst.ClientRegistrationTypeAutomatic,"),
 ("bug", "C38", "discovery.go", "			return slices.Contains(e.EntityTypes, \"openid_provider\")", "			return len(e.EntityTypes) > 0 && e.EntityTypes[0] == \"openid_provider\""),
 ("bug", "C38", "discovery.go", "			Subject:     e.EntityID,\n			TrustAnchor: trustAnchors,\n", "			Subject:     e.EntityID,\n			TrustAnchor: trustAnchors[:1],\n"),
 ("bug", "C38", "discovery.go", "	req.EntityTypes = []string{\"openid_provider\"}\n	return", "	if req.EntityTypes == nil {\n		req.EntityTypes = []string{\"openid_provider\"}\n	}\n	return"),
 ("bug", "C38", "discovery.go", "	trustAnchors := append([]string{req.TrustAnchor}, utils.RemoveFromSlice(c.TrustAnchors, req.TrustAnchor)...)", "	trustAnchors := append(utils.RemoveFromSlice(c.TrustAnchors, req.TrustAnchor), req.TrustAnchor)"),
 ("bug", "C38", "discovery.go", "	trustAnchors := append([]string{req.TrustAnchor}, utils.RemoveFromSlice(c.TrustAnchors, req.TrustAnchor)...)", "	trustAnchors := c.TrustAnchors\n	if len(trustAnchors) == 0 {\n		trustAnchors = []string{req.TrustAnchor}\n	}"),
 ("bug", "C38", "discovery.go", "		if entities == nil {\n			continue\n		}", "		if len(entities) == 0 {\n			continue\n		}"),
 ("bug", "C38", "discovery.go", "		if entities == nil {\n			continue\n		}", "		if entities == nil {\n			break\n		}"),
 ("bug", "C38", "discovery.go", "		if entityCollectionEndpoint == \"\" {\n			continue\n		}", "		if entityCollectionEndpoint == \"\" {\n			break\n		}"),
 ("bug", "C38", "discovery.go", "			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			continue", "			internal.Logf(\"error while obtaining entity configuration: %v\", err)\n			return nil"),
 ("bug", "C38", "internal/utils/slices.go", "		if vv != v {\n			result = append(result, vv)\n		}", "		if vv == v {\n			result = append(result, vv)\n		}"),
 ("bug", "C38", "internal/utils/slices.go", "	result := make([]C, 0, len(slice))\n	for _, vv", "	result := slice[:0]\n	for _, vv"),
 ("bug", "C38", "discovery.go", "	params, err := query.Values(req)\n	if err", "	req.Limit = 0\n	params, err := query.Values(req)\n	if err"),
 ("bug", "C38", "discovery.go", "	if errRes != nil {\n		internal.Logf(\"error while fetching entity collection endpoint: %s\", errRes.Err().Error())\n		return nil\n	}", "	if errRes != nil {\n		internal.Logf(\"error while fetching entity collection endpoint: %s\", errRes.Err().Error())\n		return []*CollectedEntity{}\n	}"),
 ("bug", "C38", "discovery.go", "		return entities\n	}\n	return (&SimpleEntityCollector{}).CollectEntities(req)\n}\n", "		return entities\n	}\n	return nil\n}\n"),
 ("same", "C38", ("discovery.go", "		var approved bool\n		for _, f := range d.Filters {\n			if approved = f.Filter(e); !approved {\n				break\n			}\n		}\n		if approved {\n			entities = append(entities, e)\n		}", "		if d.approves(e) {\n			entities = append(entities, e)\n		}"), ("discovery.go", "// CollectEntities implements the EntityCollector interface\nfunc (d FilterableVerifiedChains", "func (d *filterableVerifiedChainsEntityCollector) approves(e *CollectedEntity) bool {\n	if len(d.Filters) == 0 {\n		return false\n	}\n	for _, f := range d.Filters {\n		if !f.Filter(e) {\n			return false\n		}\n	}\n	return true\n}\n\n// CollectEntities implements the EntityCollector interface\nfunc (d FilterableVerifiedChains")),
 ("same", "C38", "discovery.go", "	confirmedValid, _ := DefaultMetadataResolver.ResolvePossible(\n		apimodel.ResolveRequest{\n			Subject:     e.EntityID,\n			TrustAnchor: f.TrustAnchors.EntityIDs(),\n		},\n	)\n	return confirmedValid", "	r := apimodel.ResolveRequest{Subject: e.EntityID}\n	for _, ta := range f.TrustAnchors {\n		r.TrustAnchor = append(r.TrustAnchor, ta.EntityID)\n	}\n	valid, _ := DefaultMetadataResolver.ResolvePossible(r)\n	return valid"),
 ("same", "C38", "discovery.go", "			return utils.ReflectIsSubsetOf(neededScopes, metadata.OpenIDProvider.ScopesSupported)", "			for _, s := range neededScopes {\n				if !slices.Contains(metadata.OpenIDProvider.ScopesSupported, s) {\n					return false\n				}\n			}\n			return true"),
 ("same", "C38", "discovery.go", "	trustAnchors := append([]string{req.TrustAnchor}, utils.RemoveFromSlice(c.TrustAnchors, req.TrustAnchor)...)", "	trustAnchors := []string{req.TrustAnchor}\n	for _, ta := range c.TrustAnchors {\n		if ta != req.TrustAnchor {\n			trustAnchors = append(trustAnchors, ta)\n		}\n	}"),
 ("same", "C38", "discovery.go", "		remoteCollector := SimpleRemoteEntityCollector{\n			EntityCollectionEndpoint: entityCollectionEndpoint,\n		}\n		entities := remoteCollector.CollectEntities(req)\n		if entities == nil {\n			continue\n		}\n		return entities", "		if entities := (SimpleRemoteEntityCollector{EntityCollectionEndpoint: entityCollectionEndpoint}).CollectEntities(req); entities != nil {\n			return entities\n		}"),
 ("same", "C38", "discovery.go", "	var res EntityCollectionResponse\n	_, errRes, err := http.Get(\n		c.EntityCollectionEndpoint, params,\n		&res,\n	)", "	res := new(EntityCollectionResponse)\n	_, errRes, err := http.Get(c.EntityCollectionEndpoint, params, res)"),
 ("same", "C38", "discovery.go", "			return slices.Contains(e.EntityTypes, \"openid_provider\")", "			return slices.Index(e.EntityTypes, \"openid_provider\") >= 0"),
 ("same", "C38", "discovery.go", "			return slices.Contains(e.EntityTypes, \"openid_provider\")", "			return slices.ContainsFunc(e.EntityTypes, func(t string) bool { return t == \"openid_provider\" })"),
 # C40
 ("bug", "C40", "apimodel/collection.go", " url:\"name_query\"`", "`"),
 ("bug", "C40", "apimodel/collection.go", "query:\"trust_mark_type\" url:\"trust_mark_type\"", "query:\"trust_mark_type\" url:\"trust_mark_types\""),
 ("bug", "C40", "apimodel/collection.go", "form:\"entity_type\" query", "form:\"entity_types\" query"),
 ("bug", "C40", "apimodel/resolve.go", "json:\"sub\" form:\"sub\" query:\"sub\" url:\"sub\"", "json:\"subject\" form:\"subject\" query:\"subject\" url:\"subject\""),
 ("bug", "C40", "entitystatement.go", "`json:\"metadata_policy_crit,omitempty\"`", "`json:\"metadata_policy_critical,omitempty\"`"),
 ("bug", "C40", "entitystatement.go", "`json:\"trust_mark_owners,omitempty\"`", "`json:\"trust_mark_issuers,omitempty\"`"),
 ("bug", "C40", "entitystatement.go", "`json:\"excluded,omitempty\"`", "`json:\"exclude,omitempty\"`"),
 ("bug", "C40", "metadata_generated.go", "	SubjectType                           *string        `json:\"subject_type,omitempty\"`", "	SubjectType                           *string        `json:\"subject_typ,omitempty\"`"),
 ("bug", "C40", "trustmark_refresher.go", "`yaml:\"min_lifetime\"`", "`yaml:\"min_lifetme\"`"),
 ("bug", "C40", "trustanchor.go", "`yaml:\"entity_id\" json:\"entity_id\"`", "`yaml:\"entity_id\" json:\"entityid\"`"),
 ("bug", "C40", "discovery.go", "`json:\"next_entity_id,omitempty\"`", "`json:\"next,omitempty\"`"),
 ("same", "C40", "apimodel/collection.go", "`json:\"limit\" form:\"limit\" query:\"limit\" url:\"limit\"`", "`url:\"limit\" query:\"limit\" form:\"limit\" json:\"limit\"`"),
 ("same", "C40", "apimodel/resolve.go", "	Subject     string   `json:\"sub\" form:\"sub\" query:\"sub\" url:\"sub\"`\n	TrustAnchor []string `json:\"trust_anchor\" form:\"trust_anchor\" query:\"trust_anchor\" url:\"trust_anchor\"`\n", "	TrustAnchor []string `json:\"trust_anchor\" form:\"trust_anchor\" query:\"trust_anchor\" url:\"trust_anchor\"`\n	Subject     string   `json:\"sub\" form:\"sub\" query:\"sub\" url:\"sub\"`\n"),
 ("same", "C40", "error.go", "type Error struct", "type errorBody struct {\n	Code string `json:\"error\"`\n	Text string\n}\n\n// Error is an error response\ntype Error struct"),
 # C29
 ("bug", "C29", "internal/utils/utils.go", "i > 0 {\n			t = t[:i]", "i > 0 && i < 12 {\n			t = t[:i]"),
 ("bug", "C29", "internal/utils/utils.go", "if t != \"\" && t != \"-\" {", "if t != \"\" && t != \"-\" && t != \"aud\" {"),
 ("bug", "C29", "internal/utils/utils.go", "		if f == nil {\n			continue\n		}\n", "		if f == nil || f.IsZero() {\n			continue\n		}\n"),
 ("bug", "C29", "entitystatement.go", "	for k, v := range extra {\n		e, err := json.Marshal(v)", "	for k, v := range extra {\n		if v == nil {\n			continue\n		}\n		e, err := json.Marshal(v)"),
 ("bug", "C29", "entitystatement.go", "	s := structs.New(target)\n	for _, tag := range utils.FieldTagNames(s.Fields(), \"json\") {\n		delete(extra, tag)\n	}", "	_ = structs.New"),
 ("bug", "C29", "entitystatement.go", "	ee.Extra = extra\n	*e = EntityStatementPayload(ee)", "	_ = extra\n	*e = EntityStatementPayload(ee)"),
 ("bug", "C29", "entitystatement.go", "	if e.jwtMsg != nil {\n		ee.JWTMsg = *e.jwtMsg\n	}\n", ""),
 ("bug", "C29", "entitystatement.go", "	e.jwtMsg = &ee.JWTMsg\n", ""),
 ("bug", "C29", "metadata.go", "if wasSet[fieldName] || !origField.IsZero() {", "if !origField.IsZero() {"),
 ("bug", "C29", "metadata.go", "if wasSet[fieldName] || !origField.IsZero() {", "if wasSet[fieldName] {"),
 ("bug", "C29", "metadata_generated.go", "func (m FederationEntityMetadata) MarshalMsgpack()", "func (m FederationEntityMetadata) marshalMsgpack()"),
 ("bug", "C29", "metadata_generated.go", "	explicitFields, err := json.Marshal(Alias(m))\n	if err != nil {\n		return nil, errors.WithStack(err)\n	}\n	return extraMarshalHelper(explicitFields, m.Extra)\n}\n\n// MarshalJSON implements the json.Marshaler interface\nfunc (m federationEntityMetadataWithPtrs)", "	explicitFields, err := json.Marshal(Alias(m))\n	return explicitFields, errors.WithStack(err)\n}\n\n// MarshalJSON implements the json.Marshaler interface\nfunc (m federationEntityMetadataWithPtrs)"),
 ("bug", "C29", "sliceorsinglevalue.go", "if len(v) == 1 {\n		return json.Marshal(v[0])", "if len(v) > 0 {\n		return json.Marshal(v[0])"),
 ("bug", "C29", "sliceorsinglevalue.go", "	if err := json.Unmarshal(data, &tSlice); err != nil {\n		return err\n	}\n	*v = tSlice", "	if err := json.Unmarshal(data, &tSlice); err != nil {\n		return err\n	}\n	*v = append(*v, tSlice[1:]...)"),
 ("bug", "C29", "trustmark.go", "	tmi.Extra = extra\n	*tm = TrustMark(tmi)", "	*tm = TrustMark(tmi)\n	_ = extra"),
 ("bug", "C29", "trustmark.go", "	return yamlExtraMarshalHelper(explicitFields, tms.Extra)", "	return yamlExtraMarshalHelper(explicitFields, nil)"),
 ("bug", "C29", "trustresolver.go", "		jwts[i] = string(mm.RawJWT)", "		jwts[len(m)-1-i] = string(mm.RawJWT)"),
 ("bug", "C29", "trustresolver.go", "	for k := range payload.Extra {\n		if _, ok := notClaims[k]; !ok {", "	for k := range payload.Extra {\n		if _, ok := notClaims[k]; ok {"),
 ("bug", "C29", "trustresolver.go", "				Audience:  r.Audience,\n", ""),
 ("bug", "C29", "jwks/jwks.go", "	if jwks.Len() == 0 {\n		jwks.Set = nil\n	}", "	if jwks.Len() <= 1 {\n		jwks.Set = nil\n	}"),
 ("bug", "C29", "internal/jwx/jws.go", "	pp, err := Parse(p.RawJWT)\n", "	pp, err := Parse(data)\n"),
 ("bug", "C29", "metadataPolicy.go", "	for k, v := range m.Extra {\n		interfaceMap[k] = interface{}(v)\n	}", "	for k, v := range m.Extra {\n		if len(v) > 1 {\n			interfaceMap[k] = interface{}(v)\n		}\n	}"),
 ("bug", "C29", "discovery.go", "	ee.Extra = extra\n	*e = CollectedEntity(ee)", "	*e = CollectedEntity(ee)\n	e.Extra = nil\n	_ = extra"),
 ("same", "C29", "entitystatement.go", "	s := structs.New(target)\n	for _, tag := range utils.FieldTagNames(s.Fields(), \"json\") {\n		delete(extra, tag)\n	}", "	known := utils.FieldTagNames(structs.New(target).Fields(), \"json\")\n	for i := len(known) - 1; i >= 0; i-- {\n		delete(extra, known[i])\n	}"),
 ("same", "C29", "entitystatement.go", "	if len(extra) == 0 {\n		extra = nil\n	}\n	return extra, nil\n}\n\nfunc yaml", "	if len(extra) > 0 {\n		return extra, nil\n	}\n	return nil, nil\n}\n\nfunc yaml"),
 ("same", "C29", "internal/utils/utils.go", "		if i := strings.IndexRune(t, ','); i > 0 {\n			t = t[:i]\n		}", "		t, _, _ = strings.Cut(t, \",\")"),
 ("same", "C29", "internal/utils/utils.go", "		if t != \"\" && t != \"-\" {\n			names = append(names, t)\n		}", "		switch t {\n		case \"\", \"-\":\n			continue\n		}\n		names = append(names, t)"),
 ("same", "C29", "entitystatement.go", "	type Alias EntityStatementPayload\n	ee := Alias(*e)\n	extra, err := unmarshalWithExtra(data, &ee)\n	if err != nil {\n		return err\n	}\n	ee.Extra = extra\n	*e = EntityStatementPayload(ee)\n	return nil", "	type plain EntityStatementPayload\n	decoded := plain(*e)\n	var err error\n	if decoded.Extra, err = unmarshalWithExtra(data, &decoded); err != nil {\n		return err\n	}\n	*e = EntityStatementPayload(decoded)\n	return nil"),
 ("same", "C29", "entitystatement.go", "	for k, v := range extra {\n		e, err := json.Marshal(v)\n		if err != nil {\n			return nil, err\n		}\n		m[k] = e\n	}", "	for k := range extra {\n		var err error\n		if m[k], err = json.Marshal(extra[k]); err != nil {\n			return nil, err\n		}\n	}"),
 ("same", "C29", "metadata.go", "		if ptrField.Kind() != reflect.Ptr || origField.Kind() == reflect.Ptr {\n			ptrField.Set(origField)\n			continue\n		}\n		if wasSet[fieldName] || !origField.IsZero() {\n			ptr := reflect.New(origField.Type())\n			ptr.Elem().Set(origField)\n			ptrField.Set(ptr)\n		}", "		wrap := ptrField.Kind() == reflect.Ptr && origField.Kind() != reflect.Ptr\n		if !wrap {\n			ptrField.Set(origField)\n		} else if !origField.IsZero() || wasSet[fieldName] {\n			ptrField.Set(reflect.New(origField.Type()))\n			ptrField.Elem().Set(origField)\n		}"),
 ("same", "C29", "sliceorsinglevalue.go", "	if len(v) == 1 {\n		return json.Marshal(v[0])\n	}\n	return json.Marshal([]T(v))", "	switch len(v) {\n	case 1:\n		return json.Marshal(v[0])\n	default:\n		return json.Marshal([]T(v))\n	}"),
 ("same", "C29", "sliceorsinglevalue.go", "	var t T\n	if json.Unmarshal(data, &t) == nil {\n		*v = []T{t}\n		return nil\n	}\n", "	single := make([]T, 1)\n	if err := json.Unmarshal(data, &single[0]); err == nil {\n		*v = single\n		return nil\n	}\n"),
 ("same", "C29", "trustresolver.go", "	jwts := make([]string, len(m))\n	for i, mm := range m {\n		jwts[i] = string(mm.RawJWT)\n	}", "	jwts := make([]string, 0, len(m))\n	for _, mm := range m {\n		jwts = append(jwts, string(mm.RawJWT))\n	}"),
 ("same", "C29", "trustresolver.go", "	for k := range payload.Extra {\n		if _, ok := notClaims[k]; !ok {\n			delete(payload.Extra, k)\n		}\n	}\n	if len(payload.Extra) == 0 {\n		payload.Extra = nil\n	}", "	var further map[string]any\n	for k, v := range payload.Extra {\n		if _, ok := notClaims[k]; ok {\n			if further == nil {\n				further = make(map[string]any)\n			}\n			further[k] = v\n		}\n	}\n	payload.Extra = further"),
 ("same", "C29", "metadataPolicy.go", "	interfaceMap := make(map[string]interface{})\n	for k, v := range m.Extra {\n		interfaceMap[k] = interface{}(v)\n	}\n", "	interfaceMap := make(map[string]any, len(m.Extra))\n	for k := range m.Extra {\n		interfaceMap[k] = m.Extra[k]\n	}\n"),
 ("same", "C29", ("jwks/jwks.go", "	\"bytes\"\n", ""), ("jwks/jwks.go", "	if bytes.Equal(data, []byte(\"null\")) {", "	if string(data) == \"null\" {")),
 ("same", "C29", "internal/jwx/jws.go", "	pp, err := Parse(p.RawJWT)\n	if err != nil {\n		return err\n	}\n	*p = *pp\n	return nil", "	pp, err := Parse(p.RawJWT)\n	if err == nil {\n		p.RawJWT, p.Message = pp.RawJWT, pp.Message\n	}\n	return err"),
 # C35
 ("bug", "C35", "cache/cache.go", "c.c.SetWithTTL(key, data, expiration)", "c.c.SetWithTTL(key, value, expiration)\n	_ = data"),
 ("bug", "C35", "cache/cache.go", "entryV, ok := c.c.Get(key)", "entryV, ok := c.c.Get(Key(\"\", key))"),
 ("bug", "C35", "cache/cache.go", "	if !ok {\n		return false, nil\n	}", "	if !ok {\n		return true, nil\n	}"),
 ("bug", "C35", "cache/cache.go", "	data, err := msgpack.Marshal(value)\n	if err != nil {\n		return err\n	}", "	data, _ := msgpack.Marshal(value)"),
 ("bug", "C35", "cache/cache.go", "		internal.Log(\"invalid cache entry type\")\n		return false, errors.New(\"invalid cache entry type\")", "		internal.Log(\"invalid cache entry type\")\n		return false, errors.Wrap(nil, \"invalid cache entry type\")"),
 ("bug", "C35", "cache/cache.go", "	return cacheCache.Get(key, target)", "	_, err := cacheCache.Get(key, target)\n	return err == nil, err"),
 ("bug", "C35", "cache/cache.go", "	return true, msgpack.Unmarshal(entry, target)", "	return true, msgpack.Unmarshal(entry, &target)"),
 ("bug", "C35", "cache/redis.go", "		if !errors.Is(err, redis.Nil) {\n			return false, errors.Wrap(err, \"error while obtaining from cache\")\n		}\n		return false, nil", "		return false, errors.Wrap(err, \"error while obtaining from cache\")"),
 ("bug", "C35", "cache/redis.go", "	if err != nil {\n		if !errors.Is(err, redis.Nil) {\n			return false, errors.Wrap(err, \"error while obtaining from cache\")\n		}\n		return false, nil\n	}", "	if errors.Is(err, redis.Nil) {\n		return false, nil\n	}"),
 ("bug", "C35", "cache/redis.go", "	return c.client.Set(c.ctx, key, data, expiration).Err()", "	c.client.Set(c.ctx, key, data, expiration)\n	return nil"),
 ("bug", "C35", "cache/redis.go", "	return c.client.Set(c.ctx, key, data, expiration).Err()", "	return c.client.SetNX(c.ctx, key, data, expiration).Err()"),
 ("bug", "C35", "cache/redis.go", "data, expiration).Err()", "data, redis.KeepTTL).Err()"),
 ("bug", "C35", "cache/redis.go", "	if err := rdb.Ping(context.Background()).Err(); err != nil {\n		return errors.Wrap(err, \"could not connect to redis cache\")\n	}", "	go rdb.Ping(context.Background())"),
 ("bug", "C35", "cache/redis.go", "			client: rdb,\n", "			client: redis.NewClient(&redis.Options{}),\n"),
 ("same", "C35", "cache/redis.go", "	if err != nil {\n		if !errors.Is(err, redis.Nil) {\n			return false, errors.Wrap(err, \"error while obtaining from cache\")\n		}\n		return false, nil\n	}\n	return true, msgpack.Unmarshal([]byte(val), target)", "	switch {\n	case err == nil:\n		err = msgpack.Unmarshal([]byte(val), target)\n		return true, err\n	case errors.Is(err, redis.Nil):\n		return false, nil\n	default:\n		return false, errors.Wrap(err, \"error while obtaining from cache\")\n	}"),
 ("same", "C35", "cache/redis.go", "	val, err := c.client.Get(c.ctx, key).Result()\n	if err != nil {\n		if !errors.Is(err, redis.Nil) {", "	val, err := c.client.Get(c.ctx, key).Bytes()\n	if err != nil {\n		if err != redis.Nil {"),
 ("same", "C35", "cache/redis.go", "	return c.client.Set(c.ctx, key, data, expiration).Err()", "	status := c.client.Set(c.ctx, key, string(data), expiration)\n	if _, err = status.Result(); err != nil {\n		return errors.Wrap(err, \"could not store\")\n	}\n	return nil"),
 ("same", "C35", "cache/redis.go", "	SetCache(\n		redisCache{\n			client: rdb,\n			ctx:    context.Background(),\n		},\n	)\n", "	ctx := context.Background()\n	backend := redisCache{rdb, ctx}\n	SetCache(backend)\n"),
 ("same", "C35", "cache/cache.go", "	entry, ok := entryV.([]byte)\n	if !ok {\n		internal.Log(\"invalid cache entry type\")\n		return false, errors.New(\"invalid cache entry type\")\n	}\n	return true, msgpack.Unmarshal(entry, target)", "	switch entry := entryV.(type) {\n	case []byte:\n		return true, msgpack.Unmarshal(entry, target)\n	default:\n		internal.Log(\"invalid cache entry type\")\n		return false, errors.New(\"invalid cache entry type\")\n	}"),
 ("same", "C35", "cache/cache.go", "	c.mu.RLock()\n	entryV, ok := c.c.Get(key)\n	c.mu.RUnlock()\n", "	entryV, ok := func() (any, bool) {\n		c.mu.RLock()\n		defer c.mu.RUnlock()\n		return c.c.Get(key)\n	}()\n"),
 # C39
 ("bug", "C39", "unixtime/unixtime.go", "time.Unix(int64(sec), int64(dec*(1e9)))", "time.Unix(int64(sec), int64(dec)*1e9)"),
 ("bug", "C39", "unixtime/unixtime.go", "time.Unix(int64(sec), int64(dec*(1e9)))", "time.Unix(0, int64(f*1e9))\n	_, _ = sec, dec"),
 ("bug", "C39", "unixtime/unixtime.go", "time.Unix(int64(sec), int64(dec*(1e9)))", "time.UnixMilli(int64(f*1e3))\n	_, _ = sec, dec"),
 ("bug", "C39", "unixtime/unixtime.go", "time.Unix(int64(sec), int64(dec*(1e9)))", "time.Unix(int64(int32(sec)), int64(dec*(1e9)))"),
 ("bug", "C39", "unixtime/unixtime.go", "float64(u.Unix()) + float64(u.Nanosecond())/1e9", "float64(u.UnixNano()) / 1e9"),
 ("bug", "C39", "unixtime/unixtime.go", "float64(u.Unix()) + float64(u.Nanosecond())/1e9", "u.Unix()"),
 ("bug", "C39", "unixtime/unixtime.go", "float64(u.Unix()) + float64(u.Nanosecond())/1e9", "float64(u.Unix()) + float64(u.Nanosecond()/1e6)/1e3"),
 ("bug", "C39", "unixtime/unixtime.go", "	if u.IsZero() {\n		return json.Marshal(0)\n	}\n", ""),
 ("bug", "C39", "unixtime/unixtime.go", "time.Duration(seconds * float64(time.Second))", "time.Duration(seconds) * time.Second"),
 ("bug", "C39", "unixtime/unixtime.go", "time.Duration(seconds * float64(time.Second))", "time.Duration(seconds*1e3) * time.Millisecond"),
 ("bug", "C39", "unixtime/unixtime.go", "	return float64(d.Nanoseconds()) / float64(time.Second), nil", "	return d.Milliseconds() / 1000, nil"),
 ("bug", "C39", "unixtime/unixtime.go", "	return json.Marshal(float64(d.Nanoseconds()) / 1e9)", "	return json.Marshal(d.Minutes())"),
 ("bug", "C39", "unixtime/unixtime.go", "	if err := value.Decode(&f); err != nil {\n		return err\n	}", "	_ = value.Decode(&f)"),
 ("bug", "C39", "unixtime/unixtime.go", "	var f float64\n	if err := value.Decode(&f); err != nil {\n		return err\n	}\n	*d = NewDurationInSeconds(f)", "	var f int\n	if err := value.Decode(&f); err != nil {\n		return err\n	}\n	*d = NewDurationInSeconds(float64(f))"),
 ("same", "C39", "unixtime/unixtime.go", "	sec, dec := math.Modf(f)\n	u.Time = time.Unix(int64(sec), int64(dec*(1e9)))", "	sec := math.Floor(f)\n	nanos := math.Round((f - sec) * float64(time.Second))\n	u.Time = time.Unix(int64(sec), int64(nanos))"),
 ("same", "C39", "unixtime/unixtime.go", "	u.Time = time.Unix(int64(sec), int64(dec*(1e9)))", "	*u = Unixtime{Time: time.Unix(int64(sec), 0).Add(time.Duration(dec * 1e9))}"),
 ("same", "C39", "unixtime/unixtime.go", "float64(u.Unix()) + float64(u.Nanosecond())/1e9", "float64(u.Nanosecond())*1e-9 + float64(u.UTC().Unix())"),
 ("same", "C39", "unixtime/unixtime.go", "	return json.Marshal(float64(d.Nanoseconds()) / 1e9)", "	seconds := d.Seconds()\n	return json.Marshal(seconds)"),
 ("same", "C39", "unixtime/unixtime.go", "	return float64(d.Nanoseconds()) / float64(time.Second), nil", "	return float64(d.Duration) / 1e9, nil"),
 ("same", "C39", "unixtime/unixtime.go", "	if u.IsZero() {\n		return json.Marshal(0)\n	}\n", "	var seconds float64\n	if u.Time.IsZero() {\n		return json.Marshal(seconds)\n	}\n"),
 ("same", "C39", "unixtime/unixtime.go", "	return DurationInSeconds{time.Duration(seconds * float64(time.Second))}", "	var d DurationInSeconds\n	d.Duration = time.Duration(float64(time.Second) * seconds)\n	return d"),
 # C28
 ("bug", "C28", ("internal/http/http.go", "	client.SetTimeout(20 * time.Second)\n", ""), ("internal/http/http.go", "	\"net/url\"\n	\"time\"\n", "	\"net/url\"\n")),
 ("bug", "C28", "internal/http/http.go", "client.SetTimeout(20 * time.Second)", "client.SetTimeout(0 * time.Second)"),
 ("bug", "C28", "internal/http/http.go", "	client.SetCookieJar(nil)\n", ""),
 ("bug", "C28", "internal/http/http.go", "client.SetRetryCount(2)", "client.SetRetryCount(2000)"),
 ("bug", "C28", "internal/http/http.go", "resty.FlexibleRedirectPolicy(10)", "resty.FlexibleRedirectPolicy(1 << 30)"),
 ("bug", "C28", "internal/http/http.go", "client.SetRedirectPolicy(resty.FlexibleRedirectPolicy(10))", "client.SetRedirectPolicy(resty.DomainCheckRedirectPolicy(\"a\"))"),
 ("bug", "C28", "internal/http/http.go", "	client.SetRetryCount(2)\n", "	client.SetRetryCount(2)\n	client.SetRetryWaitTime(time.Hour)\n"),
 ("bug", "C28", "authcode.go", "var tokenClient = &http.Client{Timeout: 20 * time.Second}", "var tokenClient = &http.Client{}\n\nvar _ = time.Second"),
 ("bug", "C28", "authcode.go", "var tokenClient = &http.Client{Timeout: 20 * time.Second}", "var tokenClient = http.DefaultClient"),
 ("bug", "C28", "authcode.go", "var tokenClient = &http.Client{Timeout: 20 * time.Second}", "var tokenClient http.Client"),
 ("bug", "C28", "authcode.go", "var tokenClient = &http.Client{Timeout: 20 * time.Second}", "var tokenClient = &http.Client{Timeout: 20 * time.Second, CheckRedirect: func(req *http.Request, via []*http.Request) error { return nil }}"),
 ("bug", "C28", "authcode.go", "tokenClient.PostForm(opMetadata", "http.PostForm(opMetadata"),
 ("bug", "C28", "authcode.go", "tokenClient.PostForm(opMetadata", "(&http.Client{}).PostForm(opMetadata"),
 ("bug", "C28", "internal/http/http.go", "	return client\n", "	client.SetTimeout(0)\n	return client\n"),
 ("bug", "C28", ("internal/http/http.go", "	\"fmt\"\n	\"net/url\"\n", "	\"crypto/tls\"\n	\"fmt\"\n	\"net/url\"\n"), ("internal/http/http.go", "	client.SetRetryCount(2)\n", "	client.SetRetryCount(2)\n	client.SetTLSClientConfig(&tls.Config{InsecureSkipVerify: true})\n")),
 ("bug", "C28", "internal/http/http.go", "	client.SetTimeout(20 * time.Second)\n", "	client.SetTimeout(20 * time.Second)\n	client.GetClient().Timeout = 0\n"),
 ("bug", "C28", "internal/http/http.go", "	client.SetTimeout(20 * time.Second)\n", "	if debug {\n		client.SetTimeout(20 * time.Second)\n	}\n}\n\nvar debug bool\n\nfunc unused() {\n"),
 ("same", "C28", "internal/http/http.go", "	client = resty.New()\n	client.SetCookieJar(nil)\n	// client.SetDisableWarn(true)\n	client.SetRetryCount(2)\n	client.SetRedirectPolicy(resty.FlexibleRedirectPolicy(10))\n	client.SetTimeout(20 * time.Second)\n", "	client = resty.New().SetTimeout(20 * time.Second).SetRetryCount(2).SetCookieJar(nil).SetRedirectPolicy(resty.FlexibleRedirectPolicy(10))\n"),
 ("same", "C28", ("internal/http/http.go", "	client = resty.New()\n	client.SetCookieJar(nil)\n	// client.SetDisableWarn(true)\n	client.SetRetryCount(2)\n	client.SetRedirectPolicy(resty.FlexibleRedirectPolicy(10))\n	client.SetTimeout(20 * time.Second)\n", "	client = newClient(20*time.Second, 2)\n"), ("internal/http/http.go", "// Do returns", "const redirects = 10\n\nfunc newClient(timeout time.Duration, retries int) *resty.Client {\n	c := resty.New()\n	c.SetRedirectPolicy(resty.FlexibleRedirectPolicy(redirects))\n	c.SetRetryCount(retries)\n	configure(c, timeout)\n	return c\n}\n\nfunc configure(c *resty.Client, timeout time.Duration) {\n	c.SetTimeout(timeout)\n	c.SetCookieJar(nil)\n}\n\n// Do returns")),
 ("same", "C28", ("internal/http/http.go", "	client = resty.New()\n	client.SetCookieJar(nil)\n	// client.SetDisableWarn(true)\n	client.SetRetryCount(2)\n	client.SetRedirectPolicy(resty.FlexibleRedirectPolicy(10))\n	client.SetTimeout(20 * time.Second)\n", "	client = resty.NewWithClient(&http.Client{Timeout: requestTimeout})\n	client.SetRetryCount(2)\n	client.SetRedirectPolicy(resty.FlexibleRedirectPolicy(10))\n"), ("internal/http/http.go", "	\"fmt\"\n	\"net/url\"\n", "	\"fmt\"\n	\"net/http\"\n	\"net/url\"\n"), ("internal/http/http.go", "// Do returns", "var requestTimeout = 20 * time.Second\n\n// Do returns")),
 ("same", "C28", ("internal/http/http.go", "var client *resty.Client", "var client = resty.New()"), ("internal/http/http.go", "	client = resty.New()\n", "")),
 ("same", "C28", "internal/http/http.go", "resty.FlexibleRedirectPolicy(10)", "resty.FlexibleRedirectPolicy(10), resty.DomainCheckRedirectPolicy(\"a\")"),
 ("same", "C28", "authcode.go", "var tokenClient = &http.Client{Timeout: 20 * time.Second}", "var tokenClient = http.Client{Timeout: 20 * time.Second}"),
 ("same", "C28", "authcode.go", "var tokenClient = &http.Client{Timeout: 20 * time.Second}", "var tokenClient = func() *http.Client {\n	c := new(http.Client)\n	c.Timeout = 20 * time.Second\n	return c\n}()"),
 ("same", "C28", ("authcode.go", "var tokenClient = &http.Client{Timeout: 20 * time.Second}", ""), ("authcode.go", "	res, err := tokenClient.", "	tokenClient := &http.Client{\n		Timeout: 20 * time.Second,\n		CheckRedirect: func(req *http.Request, via []*http.Request) error {\n			if len(via) > 5 {\n				return errors.New(\"too many redirects\")\n			}\n			return nil\n		},\n	}\n	res, err := tokenClient.")),
]
