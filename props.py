"""The properties: one source for properties.jsonl and MANIFEST.json."""
PROPS = []
NA = {}

def P(id, title, statement, over, forall, why, files, mech, technique, note=None):
    d = dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, technique=technique)
    if note:
        d["note"] = note
    PROPS.append(d)

P("C01", "Only correctly linked statements enter a trust chain",
  "Every superior that trust chain resolution adds above an entity was named in that entity's authority hints, published an entity configuration whose issuer and subject are that very identifier, and issued the used subordinate statement with itself as issuer and the entity below as subject. The starting entity's configuration is used only if its issuer and subject both are the requested entity.",
  ["inputs", "histories"], "for every federation topology and every content of the fetched statements",
  "A forged or mixed-up statement can differ from a legitimate one in any single identifier at any level of the tree; the mock federations of the tests publish only correctly linked statements.",
  ["trustresolver.go", "entitystatement.go"],
  [("recursive resolution step", "trustresolver.go trustTree.resolve"), ("entry of the starting entity", "trustresolver.go TrustResolver.Resolve")],
  "property simulation (path-sensitive abstract interpretation over SSA) of the recursive resolution step on an arbitrary node")
P("C02", "Expired or not yet valid statements are never used",
  "No entity configuration or subordinate statement enters a trust chain unless, at the time of resolution, its issuance time is not in the future and its expiration time is not in the past. The time check refuses a statement only when one of these bounds is violated.",
  ["inputs", "histories"], "for every issuance and expiration time of every statement in the tree, including the starting entity's",
  "Tests check a few fixed offsets for the time check itself and never resolve a tree in which one particular statement at one particular level is stale.",
  ["trustresolver.go", "unixtime/unixtime.go", "entitystatement.go"],
  [("time check", "unixtime/unixtime.go VerifyTime"), ("callers", "trustresolver.go trustTree.resolve, TrustResolver.Resolve")],
  "property simulation: time check dominates every entry into the tree; path enumeration of the time check")
P("C03", "Only statements with verified signatures appear in returned chains",
  "In every chain returned after signature verification, the anchor's statements verify under the configured keys of that anchor (its own published keys only if none are configured) and each lower statement verifies under the keys its superior asserts for it. Branches that do not verify, or that end in an entity without authorities that is not a trust anchor, are dropped; branches that verify are kept in order.",
  ["inputs", "histories"], "for every tree shape, every combination of valid and invalid signatures and every trust anchor configuration",
  "Tests sign all statements correctly; which of several branches carries a bad signature, and which key source is consulted for it, is a combinatorial space they do not sample.",
  ["trustresolver.go", "entitystatement.go"],
  [("signature verification", "trustresolver.go trustTree.verifySignatures"), ("chain construction", "trustresolver.go trustTree.chains"), ("order of phases", "trustresolver.go ResolveToValidChainsWithoutVerifyingMetadata")],
  "symbolic path enumeration of one verification step over abstract trees (0..2 authorities, 0..2 anchors) with the recursion as induction hypothesis")
P("C04", "Constraints of superiors are enforced on everything below them",
  "A superior is used only if the constraints in its statement hold for the whole path below: max_path_length is at least the number of intermediates below, no entity below is excluded and (if permitted is given) every one is permitted, and every entity type below is allowed (federation_entity always is). A superior whose constraints hold is not refused because of them; a naming constraint with leading dot matches host names ending in it, any other only the identical host name, both regardless of upper and lower case.",
  ["inputs"], "for every constraint object, every path below it and every set of entity identifiers and types on that path",
  "Each constraint kind interacts with the path below over several recursion levels; tests check isolated constraints on a fixed federation.",
  ["trustresolver.go"],
  [("constraint check", "trustresolver.go trustTree.checkConstraints"), ("naming predicate", "trustresolver.go matchNamingConstraint"), ("accumulated depth, ids and types", "trustresolver.go trustTree.resolve")],
  "path-sensitive abstract interpretation with quantified loop facts (for all ids below / exists constraint)")
P("C05", "Resolution terminates and follows every usable authority hint",
  "Trust chain resolution never descends into an authority that already lies on the path below, always hands the set of identifiers below plus the authority to the next level, and does not ascend above a configured trust anchor. Every authority hint is considered, independently of the others: one that cannot be fetched, fails a check or would close a loop is skipped without ending the processing of the remaining hints.",
  ["inputs", "histories"], "for every (cyclic, deep, partly unreachable) graph of authority hints",
  "Loops of length three or more, several hints of which an early one fails, and anchors below other anchors are combinations that the mock federations do not contain.",
  ["trustresolver.go"],
  [("recursive resolution step", "trustresolver.go trustTree.resolve")],
  "property simulation of the recursive resolution step: visited-set inductive invariant plus favourable-path reachability for every hint")
P("C06", "Trust chains have the specified shape, one per path to an anchor",
  "The chains taken from a trust tree are exactly its paths: each starts with the starting entity's configuration, goes on with one subordinate statement per superior in order and ends with the anchor's configuration; every path yields one chain and chains share no memory that a later construction step overwrites. The exported chains come from the resolver's own tree or cached chains.",
  ["inputs"], "for every tree shape with any number of authorities and chains per node",
  "Aliasing between chains shows only from a particular slice capacity and branching on; order and completeness depend on shapes that tests sample at one or two points.",
  ["trustresolver.go"],
  [("chain construction", "trustresolver.go trustTree.chains"), ("entry", "trustresolver.go TrustResolver.Chains")],
  "symbolic evaluation of one chain construction step (recursion as induction hypothesis) and allocation freshness analysis of every append to a chain")
P("C07", "Cached results are only served for the request they were computed for",
  "Two requests share a cache entry only if everything the cached value depends on agrees: starting entity, ids and keys of all trust anchors and entity types for trees and chains; all statements of the chain for resolved metadata; subject and issuer for statements; the endpoint for listings. Chains enter the cache only after signature verification, and a lookup that failed or could not be decoded is never used as a result.",
  ["inputs", "histories"], "for every pair of requests (any identifiers, anchors, keys, types) and every order of them",
  "Whether two requests collide depends on pairs of inputs (identifiers with separators, anchors that differ only in keys) and on cache contents left by earlier requests; tests start with empty caches.",
  ["cache/cache.go", "trustresolver.go", "trustchain.go", "discovery.go", "federation.go"],
  [("keys", "cache/cache.go Key, EntityStmtCacheKey; TrustResolver.hash, TrustChain.hash"), ("accesses", "trustresolver.go cacheGet/Set*, entityStmtCacheGet/Set")],
  "symbolic evaluation of cache accesses with an injectivity analysis of the key terms")
P("C08", "Nothing is served from the cache after it expired",
  "The lifetime given to a cache entry is the time left until the stored statement expires, until the first statement of the stored chain expires (resolved metadata), or until the expiration recorded with the stored tree, which is only ever lowered while the tree is built. Values without a positive remaining lifetime do not reach the cache backend; every other value does, with exactly that lifetime.",
  ["inputs", "histories"], "for every statement, chain or tree and every moment it is cached",
  "It depends on the relation between several expiration times and the moment of caching; tests do not wait for expirations.",
  ["trustresolver.go", "trustchain.go", "cache/cache.go", "cache/redis.go", "unixtime/unixtime.go"],
  [("fillings", "trustresolver.go, trustchain.go cacheSet*; entityStmtCacheSet"), ("front end", "cache/cache.go Set"), ("earliest expiration", "trustchain.go TrustChain.ExpiresAt; trustTree.resolve")],
  "symbolic evaluation of cache accesses; term and order-fact rule on the duration argument")
P("C09", "Critical policy operators that are not understood invalidate the chain",
  "Metadata is computed for a trust chain only if every operator that any of its statements lists in metadata_policy_crit, whether that statement carries a policy or not, is one this module applies; otherwise an error is returned. The seven operators of the specification are understood, operators that count as understood have an implementation, and a chain whose critical operators all are understood is not refused for them.",
  ["inputs"], "for every chain and every distribution of critical operators over its statements",
  "Which statement names which operator is a combinatorial space; the test vectors have no critical operators at all.",
  ["trustchain.go", "policyoperators.go"],
  [("check of critical operators", "trustchain.go TrustChain.Metadata"), ("operators understood", "policyoperators.go OperatorOrder, operators")],
  "path-sensitive abstract interpretation of TrustChain.Metadata over symbolic statements, membership facts per critical operator")
P("C11", "Policy operators are applied one after the other in the specified order",
  "Applying the policy entry of a claim threads the claim's value and presence through each understood operator of the entry exactly once, in the order value, add, default, one_of, subset_of, superset_of, essential, each with the entry's value for it and with the essential flag set exactly if the entry's essential operator is the boolean true; the first error is returned. Operators that are not understood have no influence.",
  ["inputs"], "for every combination of operators in an entry, all their values and every claim value",
  "The tests run a vector list and single operators; that no combination skips, repeats or reorders an operator or drops its presence result is a statement about all 128 combinations and all values.",
  ["metadataPolicy.go", "policyoperators.go"],
  [("application", "metadataPolicy.go MetadataPolicyEntry.ApplyTo"), ("order", "policyoperators.go OperatorOrder")],
  "symbolic evaluation over all operator subsets; operator applications as uninterpreted terms compared with the specified composition")
P("C12", "Each policy operator has its specified effect on a value",
  "value replaces the claim (or removes it if null), add yields the union, default fills only an unset claim, one_of demands membership, subset_of yields the intersection, superset_of demands inclusion of its values, essential demands a value that is neither missing nor a zero scalar. one_of, subset_of and superset_of leave unset claims alone unless they are essential, in which case they fail. No operator fails for another reason, and the returned presence says whether the claim is set afterwards.",
  ["inputs"], "for every claim value (set, unset, zero, null), policy value and essential flag",
  "The behaviour depends on presence, nullness, zeroness, essential and a set relation at once; tests sample this product space with string lists.",
  ["policyoperators.go"],
  [("operators", "policyoperators.go the appliers passed to NewPolicyOperator")],
  "path-sensitive abstract interpretation of each applier; outcome by outcome comparison with a truth table")
P("C13", "Policies of several superiors are merged operator by operator",
  "The combination of several policies contains exactly the claims and operators of the given policies; where several have the same operator for a claim the values are merged by that operator: value and default must agree, add and superset_of are united, one_of and subset_of intersected, essential is or-ed. Each resulting entry was verified. Combination fails exactly when a merge or a verification fails, and absent policies have no influence.",
  ["inputs"], "for every number of policies, every set of claims and operators in them and every iteration order of the maps",
  "The result must be the same for every map order and every position of a policy in the chain; tests combine pairs with few claims.",
  ["metadataPolicy.go", "policyoperators.go"],
  [("combination", "metadataPolicy.go CombineMetadataPolicy, combineMetadataPolicy, mergeMetadataPolicyEntries"), ("merge of operators", "policyoperators.go the mergers passed to NewPolicyOperator")],
  "symbolic evaluation over parametric map shapes in both iteration orders; truth-table comparison for the operators")
P("C14", "Contradictory policies are rejected",
  "A policy entry is accepted exactly if no two of its understood operators are excluded from appearing together (one_of with add, subset_of or superset_of) and the values are consistent: superset_of and add within subset_of, add within value, value within subset_of, one_of not empty, and no default beside a null value. Operators that are not understood have no influence.",
  ["inputs"], "for every combination of operators in an entry and every relation between their values",
  "Each rule concerns a pair of operators in an entry that may hold others; tests sample pairs.",
  ["metadataPolicy.go", "policyverifiers.go", "policyoperators.go"],
  [("verification", "metadataPolicy.go MetadataPolicyEntry.Verify"), ("rules", "policyverifiers.go the registered verifiers")],
  "symbolic evaluation over all operator subsets with the set relations as free predicates, truth-table comparison")

P("C10", "Policies of all superiors, and only those for its type, reach each metadata",
  "The metadata of a trust chain with more than one statement is the metadata of its first statement with the combined policies applied, errors of combining or applying included. For each entity type (the six known ones and any other) the combined policy is made of exactly that type's policies of the statements, none missing from a statement between first and last. Applied to metadata of that type it changes nothing else: types without policy are kept, absent types stay absent.",
  ["inputs"], "for every chain, every presence of policies in its statements and every presence of metadata and policies per entity type",
  "A policy that gets lost for one entity type, one position in the chain or metadata of types without own field leaves everything else working; tests have policies for one or two types.",
  ["trustchain.go", "metadataPolicy.go", "metadata.go"],
  [("policies of the chain", "trustchain.go TrustChain.Metadata; metadataPolicy.go MergeMetadataPolicies"), ("application per type", "metadata.go Metadata.ApplyPolicy")],
  "symbolic evaluation with partial evaluation of reflection; provenance of every combined and applied policy")
P("C15", "Set operations on claim values treat them as sets of values",
  "Membership, inclusion, union, intersection and equality of claim values (the operations that policy operators and their verification are defined by) depend only on the sets of values: a single value is a set of one, no value is an empty set, the representation of a list ([]string, []any, numbers as integers or decoded JSON numbers) and its order have no influence, and the operands are not modified.",
  ["inputs"], "for every pair of values in every representation",
  "Policy values come from JSON ([]any, float64), metadata values from typed structs; agreement must hold for each pair of representations and arrangement, and overwritten operands show only later and elsewhere.",
  ["internal/utils/slices.go"],
  [("operations", "internal/utils/slices.go ReflectSliceContains, ReflectIsSubsetOf, ReflectIsSupersetOf, ReflectUnion, ReflectIntersect, SliceEqual")],
  "symbolic evaluation with partial evaluation of reflection; elements are symbols that can only be compared (data independence)",
  note="Lists of up to two elements on one side and three on the other; the code treats elements uniformly. Decided from the source by abstract interpretation; no execution.")
P("C16", "A policy entry applies to the claim it is named after",
  "In every metadata type the policy entry named like a claim is applied to that claim's value with the information whether the claim was present, its result becomes the claim's value (converted to the claim's type if needed, or an error), a removed claim is cleared, and errors are returned. Entries for claims the type does not know apply to the further claims in the same way, without changing the entity's own metadata. No other claim changes.",
  ["inputs"], "for every claim of every metadata type, known or not, and every result of applying the entry",
  "There are several hundred claims over six types, mapped by reflection over struct tags; tests apply policies to a handful, and a wrong tag, a skipped field or a type mismatch affects one claim only.",
  ["metadata.go", "metadata_generated.go"],
  [("application to typed metadata", "metadata.go applyPolicy; ApplyPolicy of each metadata type"), ("further claims", "metadata.go applyPolicyToClaims")],
  "symbolic evaluation with partial evaluation of reflection over all claims of all metadata types")
P("C17", "Every JWT is issued and accepted only with the typ of its role",
  "Entity statements, trust marks, delegations and resolve responses are parsed without error only if the protected header of every signature of the JWT carries the typ defined for that role, and with it they are. The signer of each role issues JWTs whose payload is the JSON of the given value, signed with the signer's key and algorithm, with the protected header typ of the role and as kid the id assigned to that key.",
  ["inputs"], "for every JWT in every serialization, with any number of signatures, and for every signer",
  "A JWT of one role accepted in another is a privilege escalation that ordinary use never shows; serializations with several signatures and each pairing of parser and signer must be covered.",
  ["jwtsigning.go", "internal/jwx/jws.go", "entitystatement.go", "trustmark.go", "metadata_resolver.go"],
  [("acceptance", "internal/jwx/jws.go VerifyType; ParseEntityStatement, ParseTrustMark, parseDelegationJWT, ParseResolveResponse"), ("issuance", "internal/jwx/jws.go SignWithType; JWT methods of the signers")],
  "path-sensitive abstract interpretation of parsers and signers; fact and argument rules on protected headers",
  note="Zero, one and two signatures (the code treats signatures uniformly). Decided from the source by abstract interpretation; no execution.")
P("C18", "Signatures vouch for exactly the content that is used",
  "The bytes a parsed JWT keeps for verification are exactly those it was parsed from, also when it comes back from the cache; its verification succeeds only if the signature over these bytes verifies with a key of exactly the given key set; and the claims of entity statements, trust marks and delegations are decoded from the payload of the very message the object keeps for verification.",
  ["inputs"], "for every JWT, key set and cache round trip",
  "Content that differs from what was signed looks right in every test with honest peers.",
  ["internal/jwx/jws.go", "entitystatement.go", "trustmark.go"],
  [("bytes and keys", "internal/jwx/jws.go Parse, ParsedJWT.VerifyWithSet"), ("decoded claims", "ParseEntityStatement, ParseTrustMark, parseDelegationJWT; EntityStatement.UnmarshalMsgpack")],
  "path-sensitive abstract interpretation; provenance of verified and decoded bytes")
P("C19", "Trust marks count only if issuer and owner are accepted by the trust anchor",
  "A trust mark verifies against a trust anchor exactly if: the anchor names no issuers for its type or the mark's issuer is one of them; its times hold; its signature verifies with the anchor's own keys if the anchor is the issuer, otherwise with keys of the issuer's statement, obtained after the issuer resolved to this very anchor; and, if the anchor names an owner for the type, the mark carries a delegation for this type and issuer by this owner that is in time and verifies with the owner's keys.",
  ["inputs"], "for every trust mark and every statement of a trust anchor",
  "Acceptance depends on the conjunction of some ten conditions with several optional parts; tests have one or two marks that fail for one reason.",
  ["trustmark.go"],
  [("verification", "trustmark.go TrustMark.VerifyFederation, TrustMark.VerifyExternal"), ("keys of the issuer", "trustmark.go getTrustMarkIssuerJWKS")],
  "path-sensitive abstract interpretation; every accepting path must entail the listed facts, no path refuses when all hold")
P("C20", "Verification of trust marks and delegations with given keys is complete",
  "With given keys a trust mark verifies exactly if its times hold and its signature verifies with these keys and, when an owner is given too, it carries a delegation for its type and issuer by that owner that is in time and verifies with the owner's keys. A delegation verifies exactly if it is in time and its signature verifies with the given keys, or with those of the owner the trust anchor names for its type.",
  ["inputs"], "for every trust mark, delegation, key set and owner",
  "Each condition is a way to forge; tests exercise a few of the combinations.",
  ["trustmark.go"],
  [("trust marks", "trustmark.go TrustMark.VerifyExternal"), ("delegations", "trustmark.go DelegationJWT.VerifyExternal, DelegationJWT.VerifyFederation")],
  "path-sensitive abstract interpretation; every accepting path must entail the listed facts, no path refuses when all hold")
P("C21", "Only verified trust marks about the entity are reported",
  "A trust mark info verifies only if its JWT parses, has the type shown beside it and verifies with exactly the given anchor or keys and owners. The filters return exactly the infos that verify, in their order. The trust marks in a resolve response are exactly those of the entity's configuration that are about this entity and verify against the anchor of the chain.",
  ["inputs"], "for every list of trust marks and every pattern of marks that verify",
  "One unverified mark in a list, or one about someone else, is a claim an attacker chooses; tests use lists with one mark.",
  ["trustmark.go", "metadata_resolver.go"],
  [("filters", "trustmark.go TrustMarkInfos.VerifiedFederation, VerifiedExternal; TrustMarkInfo.VerifyFederation, VerifyExternal, TrustMark"), ("resolve response", "metadata_resolver.go LocalMetadataResolver.ResolveResponsePayload")],
  "path-sensitive abstract interpretation over all verification patterns of symbolic lists",
  note="Lists of up to three marks (the code treats marks uniformly). Decided from the source by abstract interpretation; no execution.")
P("C22", "Trust marks and delegations are issued as specified",
  "A trust mark issuer issues trust marks exactly for the types it was given. Each has the issuer as iss, the given subject, the type and the logo, ref, delegation and further claims of the type's specification, is issued now and expires after the requested lifetime, else the specification's, and never exactly if that is zero. The returned info has type and JWT, and further claims only if the specification says so. A trust mark owner issues delegations likewise.",
  ["inputs"], "for every catalogue of specifications, type, subject and lifetime",
  "A claim that gets lost, or a lifetime that silently becomes unlimited for some combination of requested and specified lifetime, shows only to the relying parties.",
  ["trustmark.go"],
  [("issuance", "trustmark.go TrustMarkIssuer.IssueTrustMark, TrustMarkOwner.DelegationJWT"), ("catalogue", "trustmark.go NewTrustMarkIssuer, NewTrustMarkOwner, AddTrustMark")],
  "symbolic evaluation of issuance; claim by claim comparison of the signed payload")
P("C23", "Trust marks of the own configuration are renewed in time and consistently",
  "A configured trust mark takes type, issuer and expiration from its JWT if one is given. It is replaced only together with its expiration (none if the new one has none), by one that the entity issued itself or that the issuer's trust mark endpoint returned for this type and subject, whichever is configured. One that lasts beyond the minimal lifetime is returned as it is, within the grace period a renewal runs in the background, otherwise renewal is awaited; renewal is tried at most once a minute and only if configured.",
  ["inputs", "histories", "schedules"], "for every configuration, point in time and answer of the issuer",
  "Expirations pass hours after the start; a mark kept with the wrong expiration, or replaced by another one, breaks the entity configuration much later and is not seen by tests that look at once.",
  ["trustmark_refresher.go"],
  [("renewal", "trustmark_refresher.go EntityConfigurationTrustMarkConfig.TrustMarkJWT, refresh"), ("set-up", "trustmark_refresher.go EntityConfigurationTrustMarkConfig.Verify")],
  "path-sensitive abstract interpretation including goroutine bodies; fact rules on kept and replaced state")
P("C24", "Filters keep exactly the chains meeting their condition, sorting orders by score",
  "A trust chain filter returns exactly the given chains that meet its condition, in their order and without changing the given list: a checker accepts the chain; it ends at the given trust anchor; its number of intermediates is at most the given maximum or is minimal among the given chains; its metadata can be resolved. Filter applies all filters in turn. SortAsc and SortDesc return all given chains, ordered by their scores. The path length is the number of intermediates.",
  ["inputs"], "for every list of chains, every order of lengths and scores and every outcome of the checks",
  "Which chain a user gets (shortest, for the right anchor) depends on it; tests use a handful of chains in which most orders coincide.",
  ["trustchainfilter.go", "trustchain.go"],
  [("filters", "trustchainfilter.go TrustChainsFilter*, TrustChains.Filter"), ("sorting", "trustchainfilter.go TrustChains.SortAsc, SortDesc"), ("length", "trustchain.go TrustChain.PathLen")],
  "symbolic evaluation on lists of symbolic chains with every outcome of the conditions; sorting modelled by its contract")
P("C36", "The entity configuration states exactly what the entity is configured with",
  "A federation entity's configuration, and the payload it signs as such, has its entity id as iss and sub, the current time as iat, an exp the configured lifetime in seconds later, and the entity's keys, authority hints, metadata, trust mark issuers, owners and further claims. It has, in order, exactly those configured trust marks whose JWT can be obtained, and no other claim. Statements about others are signed as given. New entities keep all given properties, use a default only for a lifetime that is not positive, and publish exactly the public key of their signer with its id, algorithm and use.",
  ["inputs"], "for every configuration and every subset of trust marks that cannot be obtained",
  "All trust in an entity starts at this statement; a wrong lifetime, a mark dropped because another one failed or a published private key show only with configurations tests do not use.",
  ["federation.go", "jwks/jwks.go", "jwtsigning.go"],
  [("configuration", "federation.go FederationEntity.EntityConfigurationPayload, EntityConfigurationJWT"), ("statements", "federation.go FederationEntity.SignEntityStatement"), ("construction", "federation.go NewFederationEntity, NewFederationLeaf"), ("keys", "jwks/jwks.go KeyToJWKS")],
  "symbolic evaluation of payload construction, signing and constructors; claim by claim comparison")
P("C27", "OIDC requests carry exactly the required and given parameters",
  "Request objects and client assertions are signed with the producer's key and have exactly the specified claims: the entity as iss and client_id (sub for assertions), iat now, exp the lifetime later, a new random jti unless given, and for request objects the other given values without sub and client_secret; without aud none is made. The authorization URL and the code exchange use the endpoint of the issuer's resolved metadata, keep its query, send exactly the required and the additional parameters, the required ones taking precedence, and leave all given maps as they are. A token response is returned only for a success status and a body without error.",
  ["inputs"], "for every combination of given values and additional parameters and every answer of the token endpoint",
  "Values given by a user that replace security relevant ones, or identifiers that repeat, are accepted by a lenient peer and only show with particular combinations of parameters.",
  ["authcode.go"],
  [("signed requests", "authcode.go RequestObjectProducer"), ("authorization URL", "authcode.go FederationLeaf.GetAuthorizationURL"), ("code exchange", "authcode.go FederationLeaf.CodeExchange")],
  "symbolic evaluation over maps of known shape; member by member comparison of what is signed and sent")
P("C26", "Failed HTTP requests never count as successful",
  "Every fetch sends one GET or POST request with the given URL, parameters and target of decoding. A transport error is reported as an error; every response whose status is not 2xx as the server's error response, with that status and the server's error if it sent one; the response is returned only for a 2xx status. Statements, listings, trust marks, resolve responses and collected entities that are fetched are returned only if the request succeeded; otherwise nothing is returned, and an error if that is how failures are reported.",
  ["inputs"], "for every status, error body and transport error at every place that fetches",
  "A server that answers 404 or redirects in an unusual form must not be taken for one that published something; tests use servers that answer 200 or a well-formed error.",
  ["internal/http/http.go", "trustresolver.go", "discovery.go", "metadata_resolver.go", "trustmark_refresher.go"],
  [("requests", "internal/http/http.go Get, Post"), ("callers", "trustresolver.go httpGetEntityConfiguration, httpFetchEntityStatement; discovery.go httpFetchList, SimpleRemoteEntityCollector.CollectEntities; metadata_resolver.go SimpleRemoteMetadataResolver.ResolveResponse; trustmark_refresher.go refresh")],
  "symbolic evaluation with a model of the HTTP client for every class of status; fact rule on all callers")
P("C33", "Answers of resolve endpoints are interpreted as specified",
  "A remote resolver sends the request it was given to its resolve endpoint once. Resolve and ResolveResponsePayload return the content of a parsed successful response and otherwise an error. ResolvePossible confirms validity for such a response or the error invalid_metadata, invalidity for invalid_trust_chain, and nothing in all other cases. The smart resolver asks the resolve endpoints published by the trust anchors of the request, in their order, until one answers (for ResolvePossible: confirms), and returns that; otherwise the local resolver's result for the same request.",
  ["inputs", "histories"], "for every error code and failure at every step, and every combination of them for several trust anchors",
  "An error taken for a confirmation makes an invalid entity trusted or a valid one refused; that needs particular error codes from particular anchors in a row.",
  ["metadata_resolver.go"],
  [("remote resolver", "metadata_resolver.go SimpleRemoteMetadataResolver"), ("smart resolver", "metadata_resolver.go SmartRemoteMetadataResolver")],
  "symbolic evaluation with a model of the request for every error code; case analysis of the anchors in order")
P("C25", "Local resolution uses the shortest chain with valid metadata",
  "A trust chain expires when the first of its statements does. The local resolver resolves the valid chains of the request's subject to the request's trust anchors for the request's entity types, and returns the metadata of a shortest one with valid metadata, with the messages of that chain's statements in order and no further claims; without such a chain it fails. ResolvePossible confirms validity if there is a valid chain with valid metadata and invalidity otherwise.",
  ["inputs"], "for every order of expirations and lengths of chains and every outcome of resolving their metadata",
  "Which chain a result is based on and how long it may be used shows only where several chains exist that differ; tests mostly use one.",
  ["metadata_resolver.go", "trustchain.go", "trustanchor.go"],
  [("local resolver", "metadata_resolver.go LocalMetadataResolver"), ("expiration", "trustchain.go TrustChain.ExpiresAt"), ("messages", "trustchain.go TrustChain.Messages")],
  "symbolic evaluation for all orders of expirations, lengths and outcomes; sorting modelled by its contract")
P("C34", "Absent optional values never cause a panic",
  "Wherever the code uses the content of a pointer valued claim (metadata, entity type metadata, constraints, expirations of trust marks and the like), of a result that can be absent although no error is reported, or of a result of a call that may have failed, it has established on that path that it is present. A function that uses one of its pointer parameters without such a test is only called with values that are present.",
  ["inputs"], "for every combination of claims that peers leave out, at every place that uses one, and every failure of the calls that produce them",
  "A single unexpected omission by a remote peer crashes the process; tests use complete statements and rarely leave out the one claim that matters at a place.",
  ["trustresolver.go", "trustchain.go", "discovery.go", "metadata_resolver.go", "federation.go", "trustmark.go", "trustmark_refresher.go", "unixtime/unixtime.go"],
  [("resolution", "trustresolver.go Resolve, resolve, checkConstraints"), ("collection", "discovery.go collect and the entity collection filters"), ("resolvers", "metadata_resolver.go SmartRemoteMetadataResolver"), ("trust marks", "trustmark_refresher.go refresh; unixtime.go VerifyTime")],
  "path-sensitive nilness analysis of all functions with interprocedural summaries iterated to a fixed point")
P("C31", "Goroutines of the module share memory without data races",
  "Memory that a goroutine started by the module shares with its starter or with other goroutines started by the same call is not accessed at the same time by two of them if one writes: the accesses are ordered by the goroutine's start, a join, a lock, a sync.Once or a transfer over a channel; channels are closed only after all sends and wait group counters raised before the goroutine starts. What a goroutine that outlives its call shares with the object's other methods is guarded by one lock once the object is configured, and it does not modify what the call returned. Package-level variables change after initialisation only by setters the module itself does not call, or under a lock. Values in the in-memory cache are not read while they are replaced.",
  ["schedules"], "for every interleaving of the goroutines that collecting entities, refreshing trust marks and refreshing cached statements start, and of their callers",
  "Races lose collected entities, corrupt trust marks or crash the process only in rare interleavings, which no test can force.",
  ["discovery.go", "trustmark_refresher.go", "trustresolver.go", "cache/cache.go", "internal/logging.go", "policyoperators.go"],
  [("collecting", "discovery.go SimpleEntityCollector.CollectEntities, collect"), ("trust marks", "trustmark_refresher.go TrustMarkJWT, current, replace, mayTry, refresh"), ("statements", "trustresolver.go getEntityStatementOrConfiguration"), ("cache", "cache/cache.go cacheWrapper")],
  "lockset and happens-before analysis over access paths in all calling contexts of each goroutine")
P("C37", "Metadata is found under the entity type and claim it is named after",
  "The entity types of metadata are exactly those it has metadata for, including types the module does not know. Display names are given for exactly the typed metadata present: the display name, or the organization's, client's or resource's name if there is none. Iterating over a string (list) claim yields the claim of that name and type of each typed metadata that sets it, under its entity type, and nothing else. Finding metadata decodes the metadata of the requested entity type into the given object or fails. Setting UI info of a collected entity changes only the named claim of the named entity type, unknown claims becoming further claims.",
  ["inputs"], "for every entity type and claim of the metadata types, names that almost match, and every combination of present and absent metadata",
  "The lookups go through reflection over struct tags, so one wrong tag, type or comparison silently drops or confuses a single claim out of hundreds; tests look at a few.",
  ["metadata.go", "metadata_generated.go", "discovery.go"],
  [("entity types and names", "metadata.go GuessEntityTypes, GuessDisplayName(s)"), ("claims", "metadata.go IterateStringClaim, IterateStringSliceClaim, FindEntityMetadata"), ("UI infos", "discovery.go CollectedEntity.setUIInfoField")],
  "symbolic evaluation with partial evaluation of reflection over all entity types and claims")
P("C32", "Collecting entities reports exactly those that match, with what was asked for",
  "The collector reports a subordinate listed by the trust anchor, or by an intermediate below it, if and only if its entity configuration can be obtained and has metadata, it has one of the requested entity types, a display name matches the name query, and it has for each requested trust mark type a trust mark issued to it that verifies against the requested trust anchor; each entity once, and intermediates are descended into whether or not they match, with the same request. A reported entity has its own entity types, display names, UI infos, resolved metadata and trust chain, and verified trust marks, each only as far as requested (without requested claims: entity types and UI infos).",
  ["inputs", "histories"], "for every combination of the request's filters and claims and every kind of subordinate, trust mark and failure",
  "Entities that do not qualify could be offered to users, or qualified ones silently left out; tests use small federations and few filters.",
  ["discovery.go", "trustmark.go"],
  [("collection", "discovery.go SimpleEntityCollector.CollectEntities, collect, matchDisplayName"), ("trust marks", "trustmark.go issuedTo, FindByID, VerifiedFederation")],
  "symbolic evaluation of all kinds of subordinates, filters and claims with cooperatively evaluated goroutines")
P("C38", "Collectors and their filters return exactly the entities that qualify",
  "The verified-chains collectors collect with the given request and keep, in order, exactly the entities for which the resolver confirms a trust chain to the requested trust anchor and which all filters of the collector approve. The OP filters approve exactly an entity whose metadata, as collected or else resolved to the given trust anchors, has all needed grant types, scopes or the registration type; the OP collector collects only OPs. The remote collector returns what its endpoint answered to the request and nothing on failure; the smart one asks the endpoints of the requested trust anchor and then of its others in order until one answers, and otherwise collects itself.",
  ["inputs", "histories"], "for every list of entities, outcome of resolving and filtering, metadata and answer of the endpoints",
  "Entities without a trust chain or the needed capability would be offered, or good ones dropped; tests see a few combinations.",
  ["discovery.go"],
  [("verified chains", "discovery.go filterableVerifiedChainsEntityCollector.CollectEntities, EntityCollectionFilterVerifiedChains"), ("OP filters", "discovery.go EntityCollectionFilterOP*"), ("remote", "discovery.go SimpleRemoteEntityCollector, SmartRemoteEntityCollector")],
  "symbolic evaluation of collectors and filters with every outcome of resolution, filtering and requests")
P("C40", "Every field is sent and received under its one specified name",
  "Every exported field of a message, request or configuration type is encoded and decoded under exactly one name per encoding: names are unique within a type, those for JSON, form, query and URL parameters agree, an encoding that names one field of a type names all of them, and the name is the one the specification gives the member, or else that of the Go field. The variant of a metadata type with pointers has the same fields, names and types as the type itself, so that no claim is lost or renamed between them.",
  ["inputs"], "for every field of every type with wire names",
  "A member under a wrong or duplicate name is silently dropped by encoders, or sent under a name that no peer understands; round-trip tests do not notice.",
  ["apimodel/collection.go", "apimodel/resolve.go", "entitystatement.go", "trustmark.go", "trustresolver.go", "discovery.go", "metadata.go", "metadata_generated.go", "trustmark_refresher.go", "trustanchor.go"],
  [("requests", "apimodel/collection.go, apimodel/resolve.go"), ("messages", "entitystatement.go, trustmark.go, trustresolver.go, discovery.go"), ("metadata", "metadata.go, metadata_generated.go")],
  "analysis of struct types and tags with the names of the specifications as oracle")
P("C29", "Decoding and encoding keep every member of a message",
  "Every type of messages with further members (Extra) has codecs for JSON, and no type takes over the codec of only one of its fields. Decoding into a fresh value sets exactly the fields of the members present and keeps all others, and only those, in Extra; encoding gives every field under its name and every further member; a failure of the encoding is returned. A cached value is restored with the same fields, further members and claims marked as set, a message with its original JWT. Key sets, lists of JWTs and values written as a single value or a list are restored in all encodings.",
  ["inputs"], "for every subset of the known members, further members, and failures of the encodings",
  "A member lost or duplicated when a statement is decoded, re-encoded or cached changes what policies and peers see; tests round-trip a few samples.",
  ["entitystatement.go", "metadata.go", "metadata_generated.go", "metadataPolicy.go", "trustmark.go", "trustresolver.go", "discovery.go", "sliceorsinglevalue.go", "jwks/jwks.go", "internal/jwx/jws.go", "internal/utils/utils.go"],
  [("further members", "entitystatement.go unmarshalWithExtra, extraMarshalHelper; internal/utils/utils.go FieldTagNames"), ("caching", "metadata.go toPointers, metadata_generated.go fromPointers, *Msgpack"), ("others", "sliceorsinglevalue.go, jwks/jwks.go, internal/jwx/jws.go, trustresolver.go JWSMessages")],
  "type analysis and symbolic evaluation of all codecs, including reflection, against a model of the encodings")
P("C35", "Cache backends return exactly what was last cached under a key",
  "Every cache backend stores the encoding of a value under exactly the given key for the given duration, or returns the failure, storing nothing it could not encode. It reads exactly the given key, decodes the entry it finds into the target, reports a missing entry as not found without an error and every other failure as an error, and has no other effect on the store. Get and Set use the backend that was set last, with its results. UseRedisCache makes a client with the given options the cache if that server answers, and otherwise fails and leaves the cache as it is.",
  ["inputs", "faults"], "for every key, value, duration and outcome of the store and of the encoding",
  "A failing or different store must not change what callers see: a store error taken for a miss or a hit, or two keys that fall together, would serve wrong statements; tests use the memory cache only.",
  ["cache/cache.go", "cache/redis.go"],
  [("memory", "cache/cache.go cacheWrapper, Get, Set, SetCache"), ("redis", "cache/redis.go redisCache, UseRedisCache")],
  "symbolic evaluation of every backend against models of the stores and the encoding")
P("C39", "Times and durations keep their value in every encoding",
  "A time is decoded from JSON as that number of seconds since 1970, and a duration from JSON, YAML or a float64 as that number of seconds, cutting off nothing coarser than a nanosecond; anything that is no number is refused. A time or duration is encoded as its number of seconds with the fraction, and an absent time as 0. For times up to the year 5000 no intermediate result overflows; failures of the encoding are returned.",
  ["inputs"], "for every number, time and duration in the range of the type",
  "Validity checks compare these times: a fraction cut off, a wrong unit or an overflow makes expired statements valid or valid ones expired, and tests use a few whole numbers.",
  ["unixtime/unixtime.go"],
  [("times", "unixtime/unixtime.go Unixtime"), ("durations", "unixtime/unixtime.go DurationInSeconds, NewDurationInSeconds")],
  "symbolic evaluation of the codecs, with results compared as linear forms with their precision and range")
P("C28", "Requests to other entities are limited in time and leave no traces",
  "Every HTTP request the module sends goes through a client with a positive overall timeout, so that a peer that does not answer, or not completely, makes the call fail instead of blocking it. A failed request is repeated at most 10 times with waits of at most a minute, and at most 20 redirects are followed. No cookies are kept between requests, and verification of server certificates is never switched off. Nothing in the module removes these limits later, sends requests with the default client or a bare transport, or opens network connections itself (the redis cache aside).",
  ["inputs", "histories"], "for every peer, however slowly it answers or where it redirects to, and every request of the module",
  "Tests use servers that answer at once; a client without limits behaves the same until some peer hangs, and then blocks a resolution with everything waiting for it.",
  ["internal/http/http.go", "authcode.go"],
  [("client of all fetches", "internal/http/http.go init, Do"), ("token requests", "authcode.go FederationLeaf.CodeExchange")],
  "symbolic evaluation of the initialisation that configures the clients; rule on every place that makes a client or sends")
