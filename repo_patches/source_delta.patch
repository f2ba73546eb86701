From bbf1279045f6bac940a063f5a5262b32e39e6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:06 +0000
Subject: [PATCH 01/27] fix: resolve shared and cyclic nodes per path instead
 of cutting every revisited node

A node reached twice in one search was cut off as unresolved even when it was not part
of a cycle, so intersections lost members and differences kept excluded ones.
---
 internal/relation_graph/searcher.go | 141 +++++++++++++++++++++++-----
 1 file changed, 115 insertions(+), 26 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index d6625ba..68584f7 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -3,6 +3,7 @@ package relation_graph
 import (
 	"context"
 	"fmt"
+	"math"
 
 	"github.com/sourcenetwork/zanzi/internal/utils"
 	"github.com/sourcenetwork/zanzi/pkg/domain"
@@ -11,17 +12,49 @@ import (
 
 func NewSearcher(builder goalTreeBuilder, logger types.Logger) Searcher {
 	return Searcher{
-		builder:   builder,
-		logger:    logger,
-		seenNodes: make(map[string]struct{}),
+		builder:     builder,
+		logger:      logger,
+		trail:       make(map[string]int),
+		resolved:    make(map[string]SearchResult),
+		provisional: make(map[string]int),
+		lowLink:     noCycle,
 	}
 }
 
+// noCycle is the lowLink value of a subtree in which no cycle was cut
+const noCycle int = math.MaxInt
+
+// Searcher walks the RelationGraph looking for a Goal.
+//
+// A RelationNode may be reached through several paths and the graph may contain cycles.
+// A node which is reached again while it is still being explored is cut off, since a
+// path going through the same node twice cannot lead to a Goal that a shorter path does not.
+// A node which failed because of such a cut is only known to fail under the assumption that
+// the node where the cycle closes fails, therefore its result is provisional until
+// that node is fully explored.
 type Searcher struct {
-	builder       goalTreeBuilder
-	logger        types.Logger
-	seenNodes     map[string]struct{}
-	resolvedTrees map[string]GoalTree
+	builder goalTreeBuilder
+	logger  types.Logger
+
+	// trail maps the nodes currently being explored to their exploration index
+	trail map[string]int
+
+	// resolved maps nodes to their definitive result
+	resolved map[string]SearchResult
+
+	// provisional maps nodes which failed because of a cut cycle to their lowLink
+	// and provisionalIds lists them in the order they were added
+	provisional    map[string]int
+	provisionalIds []string
+
+	// counter is the next exploration index
+	counter int
+
+	// successes counts the nodes resolved as success
+	successes int
+
+	// lowLink is the lowest exploration index the subtree being explored depends on
+	lowLink int
 }
 
 // Search receives an Origin and a Goal and searches for a Path in the RelationGraph between
@@ -183,16 +216,6 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		Reason:       node.Reason,
 	}
 
-	// add trail
-	// use cached value
-	nodeId := node.RelationNode.Id()
-	if _, ok := s.seenNodes[nodeId]; ok {
-		s.logger.Debugf("duplicated node - terminating brach: %v", node.RelationNode)
-		return pathNode, nil
-	} else {
-		s.seenNodes[nodeId] = struct{}{}
-	}
-
 	spec := GoalFoundSpec{}
 	found := spec.Found(node, goal)
 	terminal := node.RelationNode.IsTerminalNode()
@@ -203,23 +226,89 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		return pathNode, nil
 	}
 
-	goalTree, err := s.builder.Build(ctx, policy, pathNode.RelationNode)
-	if err != nil {
-		return nil, err
+	nodeId := node.RelationNode.Id()
+	if result, ok := s.resolved[nodeId]; ok {
+		s.logger.Debugf("node already resolved: %v", node.RelationNode)
+		pathNode.Result = result
+		return pathNode, nil
+	}
+	if index, ok := s.trail[nodeId]; ok {
+		s.logger.Debugf("cycle found - terminating branch: %v", node.RelationNode)
+		s.lowLink = min(s.lowLink, index)
+		return pathNode, nil
+	}
+	if lowLink, ok := s.provisional[nodeId]; ok {
+		s.lowLink = min(s.lowLink, lowLink)
+		pathNode.Result = SearchResult_FAILURE
+		return pathNode, nil
 	}
 
-	goalTree, err = s.search(ctx, policy, goalTree, goal)
-	if err != nil {
-		return nil, err
+	index := s.counter
+	s.counter++
+	s.trail[nodeId] = index
+	outerLowLink := s.lowLink
+	provisionalMark := len(s.provisionalIds)
+
+	for {
+		s.lowLink = noCycle
+		knownSuccesses := s.successes
+
+		goalTree, err := s.builder.Build(ctx, policy, pathNode.RelationNode)
+		if err != nil {
+			return nil, err
+		}
+
+		goalTree, err = s.search(ctx, policy, goalTree, goal)
+		if err != nil {
+			return nil, err
+		}
+
+		goalTree.SetParent(pathNode)
+		pathNode.Path = goalTree
+		pathNode.Result = goalTree.GetResult()
+
+		// Nodes provisionally assumed to fail may have succeeded later in the search,
+		// in which case the failure of the node closing the cycle isn't definitive.
+		closesCycles := s.lowLink >= index
+		if pathNode.Result == SearchResult_SUCCESS || !closesCycles || s.successes == knownSuccesses {
+			break
+		}
+		s.popProvisional(provisionalMark)
 	}
 
-	goalTree.SetParent(pathNode)
-	pathNode.Path = goalTree
-	pathNode.Result = goalTree.GetResult()
+	delete(s.trail, nodeId)
+
+	switch {
+	case pathNode.Result == SearchResult_SUCCESS:
+		s.popProvisional(provisionalMark)
+		s.resolved[nodeId] = SearchResult_SUCCESS
+		s.successes++
+		s.lowLink = outerLowLink
+	case s.lowLink >= index:
+		for _, id := range s.popProvisional(provisionalMark) {
+			s.resolved[id] = SearchResult_FAILURE
+		}
+		s.resolved[nodeId] = SearchResult_FAILURE
+		s.lowLink = outerLowLink
+	default:
+		s.provisional[nodeId] = s.lowLink
+		s.provisionalIds = append(s.provisionalIds, nodeId)
+		s.lowLink = min(s.lowLink, outerLowLink)
+	}
 
 	return pathNode, nil
 }
 
+// popProvisional removes and returns the provisional nodes added after mark
+func (s *Searcher) popProvisional(mark int) []string {
+	ids := s.provisionalIds[mark:]
+	s.provisionalIds = s.provisionalIds[:mark]
+	for _, id := range ids {
+		delete(s.provisional, id)
+	}
+	return ids
+}
+
 type GoalFoundSpec struct{}
 
 func (s *GoalFoundSpec) Found(pathNode *PathNode, goal *Goal) bool {
-- 
2.43.0


From b4abec02b49139049df936605f3703682e705dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:47 +0000
Subject: [PATCH 02/27] fix: report an error instead of panicking on a wildcard
 in a tupleset

Following a tuple to userset rule through a wildcard subject built a node without object
and crashed the search.
---
 internal/relation_graph/rule_evaluator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/rule_evaluator.go b/internal/relation_graph/rule_evaluator.go
index 371d80a..6a0170f 100644
--- a/internal/relation_graph/rule_evaluator.go
+++ b/internal/relation_graph/rule_evaluator.go
@@ -117,7 +117,8 @@ func buildTupleToUsersetNode(node *domain.RelationNode, computedRelation string)
 	case *domain.RelationNode_Entity:
 		entitySetNode.Object = nodeType.Entity.Object
 	case *domain.RelationNode_Wildcard:
-		//TODO not sure how I should go about this scenario yet...
+		// A wildcard does not identify an object whose relation could be followed
+		return nil, fmt.Errorf("building tuple to userset node: wildcard %v in tupleset: %w", node, domain.ErrInvalidVariant)
 	default:
 		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, domain.ErrInvalidVariant)
 	}
-- 
2.43.0


From 4224491fda5f776d674a0c5362907af4092d5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 03/27] fix: make RelationNode ids unambiguous

Ids of distinct nodes clashed when names contained the separator, which made the search
take one node for another.
---
 pkg/domain/relation_graph.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index a40e222..85ea56c 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -5,6 +5,7 @@ import (
 
 	"crypto/sha256"
 	"encoding/base64"
+	"encoding/binary"
 )
 
 func (n *RelationNode) GetObject() *Entity {
@@ -35,26 +36,23 @@ func (n *RelationNode) IsTerminalNode() bool {
 // Hash produces an Id of a RelationNode which uniquely identifies it.
 func (n *RelationNode) Id() string {
 	hasher := sha256.New()
-	separator := []byte{byte('/')}
 
-	// since Ids and Relations are required, it's impossible
-	// for users to created an entity node which would cause a clash
+	// every component is preceded by its length, such that nodes whose components
+	// contain arbitrary characters or are split differently do not clash.
+	write := func(components ...string) {
+		for _, component := range components {
+			hasher.Write(binary.AppendUvarint(nil, uint64(len(component))))
+			hasher.Write([]byte(component))
+		}
+	}
+
 	switch node := n.Node.(type) {
 	case *RelationNode_EntitySet:
-		hasher.Write([]byte(node.EntitySet.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Object.Id))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Relation))
+		write("entity_set", node.EntitySet.Object.Resource, node.EntitySet.Object.Id, node.EntitySet.Relation)
 	case *RelationNode_Entity:
-		hasher.Write([]byte(node.Entity.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.Entity.Object.Id))
-		hasher.Write(separator)
+		write("entity", node.Entity.Object.Resource, node.Entity.Object.Id)
 	case *RelationNode_Wildcard:
-		hasher.Write([]byte(node.Wildcard.Resource))
-		hasher.Write(separator)
-		hasher.Write(separator)
+		write("wildcard", node.Wildcard.Resource)
 	default:
 	}
 
-- 
2.43.0


From 9b0d47ef09859e76af01fc8121db2bc1855e7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:51 +0000
Subject: [PATCH 04/27] fix: make relationship keys unambiguous

Node keys hashed the concatenation of resource, id and relation, therefore distinct
relationships could overwrite, shadow or delete each other.
---
 internal/store/kv_store/model.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/store/kv_store/model.go b/internal/store/kv_store/model.go
index 659156d..ef9769f 100644
--- a/internal/store/kv_store/model.go
+++ b/internal/store/kv_store/model.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	"crypto/sha256"
+	"encoding/binary"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -24,9 +25,13 @@ type relationNodeKeyer struct{}
 
 func (t *relationNodeKeyer) Key(node *RelationNode) []byte {
 	hasher := sha256.New()
-	hasher.Write([]byte(node.Resource))
-	hasher.Write([]byte(node.Id))
-	hasher.Write([]byte(node.Relation))
+	// components are preceded by their length, otherwise distinct nodes
+	// whose components concatenate to the same value would share a key
+	for _, component := range []string{node.Resource, node.Id, node.Relation} {
+		hasher.Write(binary.AppendUvarint(nil, uint64(len(component))))
+		hasher.Write([]byte(component))
+	}
+	hasher.Write(binary.AppendUvarint(nil, uint64(node.Type)))
 	return hasher.Sum(nil)
 }
 
-- 
2.43.0


From 78da1b699f2cc26cb3fc5b14c4ea48cae73fa6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:53 +0000
Subject: [PATCH 05/27] fix: keep the relationships of each policy apart

App data was shared by all policies, and the relationships of a policy could be listed and
deleted through another policy whose id extends its key prefix.
---
 internal/store/kv_store/kv_store.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 3b1d167..4e5350d 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -1,6 +1,8 @@
 package kv_store
 
 import (
+	"crypto/sha256"
+
 	rcdb "github.com/sourcenetwork/raccoondb"
 
 	"github.com/sourcenetwork/zanzi/internal/policy"
@@ -47,7 +49,7 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, []byte(policyId))
+	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
@@ -60,10 +62,19 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	store := rcdb.NewObjStore[*RelationshipData](kv.relationshipDataPrefixKV, marshaler, &ider)
+	prefixKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, policyPrefix(policyId))
+	store := rcdb.NewObjStore[*RelationshipData](prefixKV, marshaler, &ider)
 	return &store
 }
 
+// policyPrefix returns the key prefix under which a policy's relationships are kept.
+// The policy id is hashed because ids may contain any character: a prefix of fixed
+// size is never a prefix of another one.
+func policyPrefix(policyId string) []byte {
+	hash := sha256.Sum256([]byte(policyId))
+	return hash[:]
+}
+
 func (kv *KVStore) GetPolicyRepository() policy.Repository {
 	repo := newPolicyRepository(kv)
 	return &repo
-- 
2.43.0


From d241b2fe62dc2a38defb1bce87e730315cf29dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:28 +0000
Subject: [PATCH 06/27] fix: release the iterator used to list policy ids and
 bound it to policies

Listing left an open iterator behind, which blocked every later write of the in memory store
when enough keys followed the policies, and returned a relationship key when there were no policies.
---
 internal/store/kv_store/kv_store.go          |  2 ++
 internal/store/kv_store/policy_repository.go | 22 ++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 4e5350d..6fdf250 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -29,6 +29,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 
 	return KVStore{
 		baseKV:                   store,
+		policyPrefixKV:           policyPrefixWrapper,
 		policyStore:              policyStore,
 		relationshipPrefixKV:     rcdb.NewWrapperKV(store, relationshipStorePrefix),
 		relationshipDataPrefixKV: rcdb.NewWrapperKV(store, relationshipDataStorePrefix),
@@ -37,6 +38,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 
 type KVStore struct {
 	baseKV                   rcdb.KVStore
+	policyPrefixKV           rcdb.KVStore
 	policyStore              rcdb.ObjectStore[*domain.PolicyRecord]
 	relationshipPrefixKV     rcdb.KVStore
 	relationshipDataPrefixKV rcdb.KVStore
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index bff9aa1..aa30847 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -78,15 +78,19 @@ func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.R
 }
 
 func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
-    store := r.kvStore.getPolicyStore()
-    ids, err := store.ListIds()
-    if err != nil {
-        return nil, fmt.Errorf("list policy ids: %w", err)
-    }
-
-    return utils.MapSlice(ids, func(id []byte) string {
-        return string(id)
-    }), nil
+	// ids are valid utf8 strings, 0xff bounds the iteration to the policies
+	iter := r.kvStore.policyPrefixKV.Iterator(nil, []byte{0xff})
+	defer iter.Close()
+
+	var ids []string
+	for ; iter.Valid(); iter.Next() {
+		ids = append(ids, string(iter.Key()))
+	}
+	if err := iter.Error(); err != nil {
+		return nil, fmt.Errorf("list policy ids: %w", err)
+	}
+
+	return ids, nil
 }
 
 func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.RelationshipRecord) (bool, error) {
-- 
2.43.0


From 1e700fdcf3534a8e228ac80d827ca23def57c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:22 +0000
Subject: [PATCH 07/27] fix: reject relationships with missing fields

The required fields of a relationship were not verified: empty names and ids were
stored and a missing object, subject or subject restriction crashed the process.
---
 internal/policy/service.go | 10 ++++++++++
 internal/policy/spec.go    | 22 +++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index dc5d1ab..6040d8b 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -199,6 +199,11 @@ func (s *Service) DeleteRelationship(
 	req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	if err := spec.requiredFields(req.Relationship); err != nil {
+		return nil, fmt.Errorf("delete Relationship: %w", err)
+	}
+
 	found, err := repo.DeleteRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("delete Relationship: %w", err)
@@ -214,6 +219,11 @@ func (s *Service) GetRelationship(
 	req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	if err := spec.requiredFields(req.Relationship); err != nil {
+		return nil, fmt.Errorf("get relationship: %w", err)
+	}
+
 	record, err := repo.GetRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("get relationship: %w", err)
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index b387c56..31342e2 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -173,13 +173,29 @@ type AllowedRelationshipSpec struct {
 
 // ValidateRelationship checks the relationship contains the rquried fields
 func (s *AllowedRelationshipSpec) requiredFields(relationship *domain.Relationship) error {
-	err := relationship.Validate()
-	if err != nil {
+	valid := s.entityPresent(relationship.GetObject()) && relationship.GetRelation() != ""
+
+	switch subject := relationship.GetSubject().GetSubject().(type) {
+	case *domain.Subject_Entity:
+		valid = valid && s.entityPresent(subject.Entity)
+	case *domain.Subject_EntitySet:
+		valid = valid && s.entityPresent(subject.EntitySet.GetEntity()) && subject.EntitySet.GetRelation() != ""
+	case *domain.Subject_ResourceSet:
+		valid = valid && subject.ResourceSet.GetResourceName() != ""
+	default:
+		valid = false
+	}
+
+	if !valid {
 		return fmt.Errorf("relationship %v: %w", relationship, ErrInvalidRelationship)
 	}
 	return nil
 }
 
+func (s *AllowedRelationshipSpec) entityPresent(entity *domain.Entity) bool {
+	return entity.GetResource() != "" && entity.GetId() != ""
+}
+
 // checkSymbols verifies that the symbols referred to in a Relationship are valid within a Policy
 // eg. validates the resources and relation names
 func (s *AllowedRelationshipSpec) checkSymbols(relationship *domain.Relationship, lut PolicyLookUpTable) error {
@@ -257,7 +273,7 @@ func (s *SubjectRestrictionSpec) Satisfies(relationship *domain.Relationship, ta
 
 	var err error
 
-	switch restriction := relation.SubjectRestriction.SubjectRestriction.(type) {
+	switch restriction := relation.GetSubjectRestriction().GetSubjectRestriction().(type) {
 	case *domain.SubjectRestriction_UniversalSet:
 		err = nil
 	case *domain.SubjectRestriction_RestrictionSet:
-- 
2.43.0


From abb1c7c1570a28fdbd833e5aa69ccfa97008aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:24 +0000
Subject: [PATCH 08/27] fix: reject policies with missing fields

The required fields of a policy were not verified: unnamed policies, resources and relations
were stored, and a missing definition, expression or expression operand crashed the process.
---
 internal/policy/helpers.go |  7 +++++--
 internal/policy/spec.go    | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/internal/policy/helpers.go b/internal/policy/helpers.go
index 588caf0..2a1d6d8 100644
--- a/internal/policy/helpers.go
+++ b/internal/policy/helpers.go
@@ -21,7 +21,7 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 	var tree *domain.RelationExpressionTree
 	var err error
 
-	switch t := r.RelationExpression.Expression.(type) {
+	switch t := r.GetRelationExpression().GetExpression().(type) {
 	case *domain.RelationExpression_Expr:
 		tree, err = parser.Parse(t.Expr)
 		if err != nil {
@@ -40,7 +40,7 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	var policy *domain.Policy
 	var err error
 
-	switch definition := d.Definition.(type) {
+	switch definition := d.GetDefinition().(type) {
 	case *api.PolicyDefinition_Policy:
 		policy = definition.Policy
 	case *api.PolicyDefinition_PolicyYaml:
@@ -52,6 +52,9 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	if err != nil {
 		return nil, err
 	}
+	if policy == nil {
+		return nil, fmt.Errorf("PolicyDefinition without policy: %w", ErrInvalidPolicy)
+	}
 
 	return policy, err
 }
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 31342e2..4b2837d 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -39,6 +39,19 @@ func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) RequiredFieldsPresent(policy *domain.Policy) error {
+	if policy.Id == "" {
+		return fmt.Errorf("policy id is required: %w", ErrInvalidPolicy)
+	}
+	for _, resource := range policy.Resources {
+		if resource.Name == "" {
+			return fmt.Errorf("resource name is required: %w", ErrInvalidPolicy)
+		}
+		for _, relation := range resource.Relations {
+			if relation.Name == "" {
+				return fmt.Errorf("resource %v: relation name is required: %w", resource.Name, ErrInvalidPolicy)
+			}
+		}
+	}
 	return policy.Validate()
 }
 
@@ -82,6 +95,9 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 			if err != nil {
 				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
 			}
+			if err := s.wellFormedTree(tree); err != nil {
+				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
+			}
 			rules := tree.GetRules()
 			for _, rule := range rules {
 				err := s.policyContainsRelationsInRule(resource.Name, relation.Name, lut, rule)
@@ -94,6 +110,24 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 	return nil
 }
 
+// wellFormedTree verifies that tree contains no missing nodes or unknown operators
+func (s *ValidPolicySpec) wellFormedTree(tree *domain.RelationExpressionTree) error {
+	switch node := tree.GetNode().(type) {
+	case *domain.RelationExpressionTree_Rule:
+		return nil
+	case *domain.RelationExpressionTree_OpNode:
+		if _, ok := domain.Operator_name[int32(node.OpNode.Operator)]; !ok {
+			return fmt.Errorf("operator %v: %w", node.OpNode.Operator, ErrRelExpTree)
+		}
+		if err := s.wellFormedTree(node.OpNode.Left); err != nil {
+			return err
+		}
+		return s.wellFormedTree(node.OpNode.Right)
+	default:
+		return fmt.Errorf("missing node: %w", ErrRelExpTree)
+	}
+}
+
 func (s *ValidPolicySpec) policyContainsRelationsInRule(resource, relation string, lut PolicyLookUpTable, rule *domain.Rule) error {
 	switch r := rule.Rule.(type) {
 	case *domain.Rule_Cu:
-- 
2.43.0


From 4b32eb7d394c07844f27093c6204e8658280944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:26 +0000
Subject: [PATCH 09/27] fix: validate selectors with missing parts or a
 relation of any object

Both crashed the process.
---
 internal/policy/spec.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 4b2837d..02444ab 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -388,7 +388,7 @@ func (s *SubjectRestrictionSpec) satisfiesRestriction(restriction *domain.Subjec
 type ValidSelectorSpec struct{}
 
 func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, policy *domain.Policy) error {
-	err := s.validObjectSelector(selector.ObjectSelector, policy)
+	err := s.validObjectSelector(selector.GetObjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("object selector invalid: policy %v: %w", policy.Id, err)
 	}
@@ -407,7 +407,7 @@ func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, pol
 }
 
 func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		resource := policy.GetResourceByName(s.ObjectSpec.Resource)
 		if resource == nil {
@@ -433,14 +433,19 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 
 	relName := relSelector.GetRelationName()
 
-	resourceName := s.getObjectSelectorResourceName(objSelector)
-	resource := policy.GetResourceByName(resourceName)
-	relation := resource.GetRelationByName(relName)
-	if relation == nil {
-		return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
+	resources := policy.Resources
+	if objSelector.GetWildcard() == nil {
+		resourceName := s.getObjectSelectorResourceName(objSelector)
+		resources = []*domain.Resource{policy.GetResourceByName(resourceName)}
 	}
 
-	return nil
+	for _, resource := range resources {
+		if resource.GetRelationByName(relName) != nil {
+			return nil
+		}
+	}
+
+	return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
 }
 
 func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.ObjectSelector) string {
@@ -454,7 +459,7 @@ func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.Ob
 }
 
 func (s *ValidSelectorSpec) validSubjectSelector(selector *domain.SubjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.SubjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
 		if resource == nil {
-- 
2.43.0


From ae973037756443b9df46eb65bae3952b0896ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:29 +0000
Subject: [PATCH 10/27] fix: compare selector objects and subjects by value

Comparing messages with reflect.DeepEqual also compares their internal state, therefore selectors
received through the wire never matched, and entity set selectors were validated as if their
relation was a resource.
---
 internal/store/kv_store/mapper.go            | 54 ++++++++++++++++++++
 internal/store/kv_store/policy_repository.go |  2 +-
 pkg/domain/relationship.go                   |  2 +-
 3 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/internal/store/kv_store/mapper.go b/internal/store/kv_store/mapper.go
index 3a6897f..e0cfd7f 100644
--- a/internal/store/kv_store/mapper.go
+++ b/internal/store/kv_store/mapper.go
@@ -154,3 +154,57 @@ func (m *relationshipMapper) FromInternalRecord(policyId string, relationship *R
 		AppData:      data.AppData,
 	}
 }
+
+// SelectorToPlain rebuilds a selector from nothing but the values of its fields.
+// Decoded messages carry internal state, hence they are not deeply equal to the relationships built by FromInternal.
+// Missing parts are left empty.
+func (m *relationshipMapper) SelectorToPlain(selector *domain.RelationshipSelector) *domain.RelationshipSelector {
+	plain := &domain.RelationshipSelector{
+		ObjectSelector:   &domain.ObjectSelector{Selector: selector.GetObjectSelector().GetSelector()},
+		RelationSelector: &domain.RelationSelector{Selector: selector.GetRelationSelector().GetSelector()},
+		SubjectSelector:  &domain.SubjectSelector{Selector: selector.GetSubjectSelector().GetSelector()},
+	}
+
+	if object, ok := selector.GetObjectSelector().GetSelector().(*domain.ObjectSelector_ObjectSpec); ok {
+		plain.ObjectSelector.Selector = &domain.ObjectSelector_ObjectSpec{
+			ObjectSpec: m.entityToPlain(object.ObjectSpec),
+		}
+	}
+	if subject, ok := selector.GetSubjectSelector().GetSelector().(*domain.SubjectSelector_SubjectSpec); ok {
+		plain.SubjectSelector.Selector = &domain.SubjectSelector_SubjectSpec{
+			SubjectSpec: m.subjectToPlain(subject.SubjectSpec),
+		}
+	}
+	return plain
+}
+
+func (m *relationshipMapper) entityToPlain(entity *domain.Entity) *domain.Entity {
+	return &domain.Entity{
+		Resource: entity.GetResource(),
+		Id:       entity.GetId(),
+	}
+}
+
+func (m *relationshipMapper) subjectToPlain(subject *domain.Subject) *domain.Subject {
+	plain := &domain.Subject{}
+	switch s := subject.GetSubject().(type) {
+	case *domain.Subject_Entity:
+		plain.Subject = &domain.Subject_Entity{
+			Entity: m.entityToPlain(s.Entity),
+		}
+	case *domain.Subject_EntitySet:
+		plain.Subject = &domain.Subject_EntitySet{
+			EntitySet: &domain.EntitySet{
+				Entity:   m.entityToPlain(s.EntitySet.GetEntity()),
+				Relation: s.EntitySet.GetRelation(),
+			},
+		}
+	case *domain.Subject_ResourceSet:
+		plain.Subject = &domain.Subject_ResourceSet{
+			ResourceSet: &domain.ResourceSet{
+				ResourceName: s.ResourceSet.GetResourceName(),
+			},
+		}
+	}
+	return plain
+}
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index aa30847..5e35b90 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -159,7 +159,7 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 		return nil, err
 	}
 
-	spec, err := policy.NewSelectorSpec(selector)
+	spec, err := policy.NewSelectorSpec(r.mapper.SelectorToPlain(selector))
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index ebad6d7..c311fe6 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -84,7 +84,7 @@ func (s *Subject) GetResourceName() string {
 	case *Subject_Entity:
 		return subj.Entity.Resource
 	case *Subject_EntitySet:
-		return subj.EntitySet.Relation
+		return subj.EntitySet.GetEntity().GetResource()
 	case *Subject_ResourceSet:
 		return subj.ResourceSet.ResourceName
 	}
-- 
2.43.0


From 9353011530e2723d4b4e90cd37c973da2d5e5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 11/27] fix: lex identifiers starting with _this as identifiers

---
 internal/relation_expression_parser/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/relation_expression_parser/lexer.go b/internal/relation_expression_parser/lexer.go
index 011258e..20c555b 100644
--- a/internal/relation_expression_parser/lexer.go
+++ b/internal/relation_expression_parser/lexer.go
@@ -160,7 +160,9 @@ func (l *Lexer) lexEOF() bool {
 func (l *Lexer) lexIdentifier() bool {
 	count := l.stepWhile(isIdentifierRune)
 	ok := count > 0
-	if ok {
+	if ok && l.input[l.startPos:l.currPos] == domain.ThisLexeme {
+		l.emit(tokenThis)
+	} else if ok {
 		l.emit(tokenIdentifier)
 	}
 
@@ -177,7 +179,6 @@ func (l *Lexer) scan() {
 		} else if l.lexTerminal(tokenUnion, domain.UnionLexeme) {
 		} else if l.lexTerminal(tokenDifference, domain.DifferenceLexeme) {
 		} else if l.lexTerminal(tokenIntersection, domain.IntersectionLexeme) {
-		} else if l.lexTerminal(tokenThis, domain.ThisLexeme) {
 		} else if l.lexIdentifier() {
 		} else if char, _ := l.peek(); unicode.IsSpace(char) {
 			l.skipSpaces()
-- 
2.43.0


From bfcd2aface9f7cf73f70f6941b1c9cbb2eddf988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:45 +0000
Subject: [PATCH 12/27] fix: reject access requests and expand roots with
 missing parts

They crashed the process.
---
 internal/relation_graph/service.go | 9 +++++++++
 pkg/domain/relation_graph.go       | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 85e9298..dc3e3fa 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -37,6 +37,9 @@ func (s *Service) Check(
 	if pol == nil {
 		return nil, fmt.Errorf("check: %w: policy %v: %w", api.ErrInvalidRequest, req.PolicyId, policy.ErrPolicyNotFound)
 	}
+	if req.AccessRequest.GetObject() == nil || req.AccessRequest.GetSubject() == nil {
+		return nil, fmt.Errorf("check: %w: access request requires an object and a subject", api.ErrInvalidRequest)
+	}
 
 	evaluator := newEvaluator(s.repository, s.logger)
 	builder := newGoalTreeBuilder(evaluator, s.logger)
@@ -92,6 +95,9 @@ func (s *Service) ExplainCheck(
 	if pol == nil {
 		return nil, fmt.Errorf("check: %w: policy %v: %w", api.ErrInvalidRequest, req.PolicyId, policy.ErrPolicyNotFound)
 	}
+	if req.AccessRequest.GetObject() == nil || req.AccessRequest.GetSubject() == nil {
+		return nil, fmt.Errorf("check: %w: access request requires an object and a subject", api.ErrInvalidRequest)
+	}
 
 	evaluator := newEvaluator(s.repository, s.logger)
 	builder := newGoalTreeBuilder(evaluator, s.logger)
@@ -151,6 +157,9 @@ func (s *Service) Expand(
 	if pol == nil {
 		return nil, fmt.Errorf("expand: %w: policy %v: %w", api.ErrInvalidRequest, req.PolicyId, policy.ErrPolicyNotFound)
 	}
+	if req.Root.GetWildcard() == nil && req.Root.GetObject() == nil {
+		return nil, fmt.Errorf("expand: %w: root requires an object", api.ErrInvalidRequest)
+	}
 
 	evaluator := newEvaluator(s.repository, s.logger)
 	builder := newGoalTreeBuilder(evaluator, s.logger)
diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index 85ea56c..31c0358 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -9,7 +9,7 @@ import (
 )
 
 func (n *RelationNode) GetObject() *Entity {
-	switch node := n.Node.(type) {
+	switch node := n.GetNode().(type) {
 	case *RelationNode_EntitySet:
 		return node.EntitySet.Object
 	case *RelationNode_Entity:
-- 
2.43.0


From ff291b29501620493f78e78c7c9ef1d66653bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:47 +0000
Subject: [PATCH 13/27] fix: leave the parent out of the json goal tree

The tree could never be encoded because parents and children refer to each other.
---
 internal/relation_graph/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/types.go b/internal/relation_graph/types.go
index 4c2cea0..11bb01b 100644
--- a/internal/relation_graph/types.go
+++ b/internal/relation_graph/types.go
@@ -25,7 +25,7 @@ type GoalTree interface {
 // The ORNode is satisfied if the Goal is found in *any*
 // Paths
 type ORNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -37,7 +37,7 @@ func (n *ORNode) SetParent(p GoalTree)    { n.Parent = p }
 // The ANDNode is satisfied if the Goal is found in *all*
 // Paths
 type ANDNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -49,7 +49,7 @@ func (n *ANDNode) SetParent(p GoalTree)    { n.Parent = p }
 // A DifferenceNode is satisfied if the Goal is found
 // on the Left GoalTree but not on the Right.
 type DifferenceNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Left   GoalTree
 	Right  GoalTree
@@ -92,7 +92,7 @@ func (r SearchResult) MarshalJSON() ([]byte, error) {
 
 // PathNode represents a possible search path in the GoalTree
 type PathNode struct {
-	Parent       GoalTree
+	Parent       GoalTree `json:"-"`
 	Result       SearchResult
 	RelationNode *domain.RelationNode
 	Path         GoalTree
-- 
2.43.0


From 78cfd229823c2f66b1117ae9fab6aed8cf3472dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 14/27] fix: escape dot strings and report serialization errors

Names containing quotes or backslashes produced malformed graphs.
---
 .../relation_graph/goal_tree_serializer.go     | 18 ++++++++++++------
 .../relation_graph/relation_tree_serializer.go |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 6b2753c..386f1f0 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -3,6 +3,7 @@ package relation_graph
 import (
 	"encoding/json"
 	"fmt"
+	"strings"
 
 	"github.com/awalterschulze/gographviz"
 	"github.com/davecgh/go-spew/spew"
@@ -51,13 +52,13 @@ func (s *dotSerializer) Serialize(goalTree GoalTree) (string, error) {
 func (s *dotSerializer) handleGoalTree(parentId string, tree GoalTree, graph *gographviz.Graph) error {
 	switch node := tree.(type) {
 	case *PathNode:
-		s.handlePathNode(parentId, node, graph)
+		return s.handlePathNode(parentId, node, graph)
 	case *ORNode:
-		s.handleORNode(parentId, node, graph)
+		return s.handleORNode(parentId, node, graph)
 	case *ANDNode:
-		s.handleANDNode(parentId, node, graph)
+		return s.handleANDNode(parentId, node, graph)
 	case *DifferenceNode:
-		s.handleDifferenceNode(parentId, node, graph)
+		return s.handleDifferenceNode(parentId, node, graph)
 	case nil:
 		break
 	default:
@@ -180,8 +181,13 @@ func (s *dotSerializer) nextId() string {
 
 // sprintf formats a string and wraps it with quotes
 func (s *dotSerializer) sprintf(format string, args ...any) string {
-	format = "\"" + format + "\""
-	return fmt.Sprintf(format, args...)
+	return quoteDOT(fmt.Sprintf(format, args...))
+}
+
+// quoteDOT builds a quoted DOT string, escaping the characters which have a meaning in it
+func quoteDOT(str string) string {
+	replacer := strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+	return "\"" + replacer.Replace(str) + "\""
 }
 
 func SerializerFactory(model api.ExplainFormat) (GoalTreeSerializer, error) {
diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 166b9e4..49dbec7 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -68,5 +68,5 @@ func (s *RelationTreeDOTSerializer) nodeLabel(node *domain.RelationNode) string
 }
 
 func (s *RelationTreeDOTSerializer) wrap(str string) string {
-	return "\"" + str + "\""
+	return quoteDOT(str)
 }
-- 
2.43.0


From c9bb4fb67d9ac19bbb60197c23d4e831ab40fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:51 +0000
Subject: [PATCH 15/27] fix: set the format of the explain check response

---
 internal/relation_graph/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index dc3e3fa..d7740f7 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -139,6 +139,7 @@ func (s *Service) ExplainCheck(
 	return &api.ExplainCheckResponse{
 		GoalTree:   serialized,
 		Authorized: found,
+		Format:     req.Format,
 	}, nil
 }
 
-- 
2.43.0


From 2315c7836eef016b2f9db1213fcbef1c7bbe9d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:52 +0000
Subject: [PATCH 16/27] fix: expand every operand of an intersection

The search stopped at the first operand, which never succeeds without a target.
---
 internal/relation_graph/searcher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index 68584f7..10a1dd2 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -129,7 +129,10 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		if newPath.GetResult() == SearchResult_FAILURE {
 			foundAll = false
 			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
-			break
+			if goal.Target != nil {
+				break
+			}
+			// without a target the entire graph must be explored
 		}
 	}
 
-- 
2.43.0


From 44c9362d112a72bfb79b2658a74553a0ae39319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:54 +0000
Subject: [PATCH 17/27] fix: dump relationships forming cycles

The dump recursed forever on a cycle which is reachable from a root, left the other cycles out
and repeated the edges of nodes with many parents.
---
 .../relation_tree_serializer.go               | 13 ++++++++---
 internal/relation_graph/walker.go             | 22 +++++++++++++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 49dbec7..dddbdb4 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -16,7 +16,8 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	graph.SetDir(directed) //directed graph true
 	graph.SetName(relationTreeGraphName)
 
-	err := s.handleNode(nil, tree, graph)
+	visited := make(map[*domain.RelationTree]struct{})
+	err := s.handleNode(nil, tree, graph, visited)
 	if err != nil {
 		return "", err
 	}
@@ -24,7 +25,7 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	return graph.String(), nil
 }
 
-func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph) error {
+func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph, visited map[*domain.RelationTree]struct{}) error {
 	id := s.nodeId(node.Node)
 	label := s.nodeLabel(node.Node)
 
@@ -43,8 +44,14 @@ func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node
 		}
 	}
 
+	// a node may be reached through many paths, some of which may be cycles
+	if _, ok := visited[node]; ok {
+		return nil
+	}
+	visited[node] = struct{}{}
+
 	for _, child := range node.Children {
-		err := s.handleNode(node, child, graph)
+		err := s.handleNode(node, child, graph, visited)
 		if err != nil {
 			return err
 		}
diff --git a/internal/relation_graph/walker.go b/internal/relation_graph/walker.go
index 4362410..7ce031a 100644
--- a/internal/relation_graph/walker.go
+++ b/internal/relation_graph/walker.go
@@ -42,8 +42,19 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 	}
 
 	rootChildren := make([]*domain.RelationTree, 0, len(orphans))
+	visited := make(map[*domain.RelationTree]struct{})
 	for orphan := range orphans {
 		rootChildren = append(rootChildren, trees[orphan])
+		w.visit(trees[orphan], visited)
+	}
+
+	// nodes which are only reachable through a cycle have no orphan as ancestor
+	for _, edge := range edges {
+		tree := w.getTree(edge.First(), trees)
+		if _, ok := visited[tree]; !ok {
+			rootChildren = append(rootChildren, tree)
+			w.visit(tree, visited)
+		}
 	}
 
 	return &domain.RelationTree{
@@ -52,6 +63,17 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 	}, nil
 }
 
+// visit adds tree and all of its descendants to visited
+func (w *walker) visit(tree *domain.RelationTree, visited map[*domain.RelationTree]struct{}) {
+	if _, ok := visited[tree]; ok {
+		return
+	}
+	visited[tree] = struct{}{}
+	for _, child := range tree.Children {
+		w.visit(child, visited)
+	}
+}
+
 func (w *walker) getTree(node *domain.RelationNode, trees map[string]*domain.RelationTree) *domain.RelationTree {
 	tree, ok := trees[node.Id()]
 	if !ok {
-- 
2.43.0


From 94e167733897e6af4c7f38b7fc786909b2a74e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 18/27] fix: remove a policy after its relationships

A delete interrupted in between left relationships which could not be removed
and which were granted again by a policy created with the same id.
---
 internal/policy/service.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index 6040d8b..c4c6a44 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -104,23 +104,31 @@ func (s *Service) DeletePolicy(
 	repo := s.getPolicyRepository()
 
 	// TODO wrap in Tx
-	found, err := repo.DeletePolicy(ctx, req.Id)
+	record, err := repo.GetPolicy(ctx, req.Id)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
-	if !found {
+	if record == nil {
 		return &api.DeletePolicyResponse{
 			Found:                false,
 			RelationshipsRemoved: 0,
 		}, nil
 	}
 
+	// The policy is removed after its relationships, such that an interrupted
+	// delete can be retried and leaves no relationships behind for a policy
+	// which is later created with the same id.
 	selector := allRelationshipsSelector()
 	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
 
+	_, err = repo.DeletePolicy(ctx, req.Id)
+	if err != nil {
+		return nil, fmt.Errorf("failed to delete policy: %w", err)
+	}
+
 	return &api.DeletePolicyResponse{
 		Found:                true,
 		RelationshipsRemoved: count,
-- 
2.43.0


From a538d2c90c69e8fbe7a5553f7f78a12b1a983bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:46 +0000
Subject: [PATCH 19/27] fix: serialize operations which modify the store

Concurrent requests could create the same policy twice or leave relationships
behind for a policy being deleted.
---
 internal/policy/service.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index c4c6a44..fd0f1b5 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -3,6 +3,7 @@ package policy
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/sourcenetwork/zanzi/internal/utils"
 	"github.com/sourcenetwork/zanzi/pkg/api"
@@ -15,6 +16,10 @@ var _ api.PolicyServiceServer = (*Service)(nil)
 type Service struct {
 	api.UnimplementedPolicyServiceServer
 	repository Repository
+
+	// writeLock serializes the operations which modify the store: each of them
+	// decides what to write based on what it has read.
+	writeLock sync.Mutex
 }
 
 func NewService(repository Repository) api.PolicyServiceServer {
@@ -30,6 +35,8 @@ func (s *Service) getPolicyRepository() Repository {
 func (s *Service) CreatePolicy(
 	ctx context.Context,
 	req *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
 
 	policy, err := GetPolicyFromDefinition(req.PolicyDefinition)
 	if err != nil {
@@ -66,6 +73,8 @@ func (s *Service) CreatePolicy(
 func (s *Service) UpdatePolicy(
 	ctx context.Context,
 	req *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
 
 	policy, err := GetPolicyFromDefinition(req.PolicyDefinition)
 	if err != nil {
@@ -101,6 +110,9 @@ func (s *Service) UpdatePolicy(
 func (s *Service) DeletePolicy(
 	ctx context.Context,
 	req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
+
 	repo := s.getPolicyRepository()
 
 	// TODO wrap in Tx
@@ -174,6 +186,9 @@ func (s *Service) ListPolicyIds(
 func (s *Service) SetRelationship(
 	ctx context.Context,
 	req *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
+
 	repo := s.getPolicyRepository()
 
 	record, err := repo.GetPolicy(ctx, req.PolicyId)
@@ -205,6 +220,9 @@ func (s *Service) SetRelationship(
 func (s *Service) DeleteRelationship(
 	ctx context.Context,
 	req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
+
 	repo := s.getPolicyRepository()
 
 	spec := AllowedRelationshipSpec{}
@@ -276,6 +294,9 @@ func (s *Service) FindRelationshipRecords(
 func (s *Service) DeleteRelationships(
 	ctx context.Context,
 	req *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
+
 	repo := s.getPolicyRepository()
 
 	count, err := repo.DeleteRelationships(ctx, req.PolicyId, req.Selector)
-- 
2.43.0


From ce7f14065fb1cc1e116d9b3bd58cbf90abd68759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 20/27] fix: report store errors of relationships and order
 their index updates

Errors while reading or writing a relationship were dropped, so it was acknowledged without being
stored or removed. An interrupted change could leave a relationship which grants access
but which deleting its policy or matching relationships does not find.
---
 internal/store/kv_store/kv_store.go           |  11 +-
 internal/store/kv_store/policy_repository.go  |  29 ++--
 internal/store/kv_store/relationship_store.go | 125 ++++++++++++++++++
 3 files changed, 146 insertions(+), 19 deletions(-)
 create mode 100644 internal/store/kv_store/relationship_store.go

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 6fdf250..76cb8bb 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -48,16 +48,9 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 	return &kv.policyStore
 }
 
-func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
-	factory := func() *Relationship { return &Relationship{} }
-	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
+func (kv *KVStore) getRelationshipStore(policyId string) relationshipStore {
 	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
-	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
-		Store:     store,
-		Keyer:     &relationNodeKeyer{},
-		Marshaler: marshaler,
-	}
-	return rcdb.NewRaccoonStore(schema)
+	return newRelationshipStore(store)
 }
 
 func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*RelationshipData] {
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 5e35b90..aec267e 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -100,17 +100,11 @@ func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.R
 	// FIXME wrap in tx
 	relationship := r.mapper.ToInternal(record.Relationship)
 
-	opt, err := relationshipStore.Get(relationship.GetSource(), relationship.GetDest())
-	updated := !opt.IsEmpty()
+	updated, err := relationshipStore.Has(&relationship)
 	if err != nil {
 		return false, fmt.Errorf("kvstore: has relationship: %w", err)
 	}
 
-	err = relationshipStore.Set(&relationship)
-	if err != nil {
-		return false, fmt.Errorf("kvstore: set relationship: %w", err)
-	}
-
 	data := RelationshipData{
 		RelationshipId: r.relationshipIDer.Id(&relationship),
 		AppData:        record.AppData,
@@ -121,6 +115,12 @@ func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.R
 		return false, fmt.Errorf("kvstore: set relationship appdata: %w", err)
 	}
 
+	// the relationship is set last, such that its data is always present
+	err = relationshipStore.Set(&relationship)
+	if err != nil {
+		return false, fmt.Errorf("kvstore: set relationship: %w", err)
+	}
+
 	return updated, nil
 }
 
@@ -132,8 +132,7 @@ func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId stri
 	relationship := r.mapper.ToInternal(spec)
 	id := r.relationshipIDer.Id(&relationship)
 
-	opt, err := relationshipStore.Get(relationship.GetSource(), relationship.GetDest())
-	found := !opt.IsEmpty()
+	found, err := relationshipStore.Has(&relationship)
 	if err != nil {
 		return false, err
 	}
@@ -173,9 +172,18 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 }
 
 func (r *policyRepository) GetRelationship(ctx context.Context, policyId string, relationship *domain.Relationship) (*domain.RelationshipRecord, error) {
+	relationshipStore := r.kvStore.getRelationshipStore(policyId)
 	relationshipDataStore := r.kvStore.getRelationshipDataStore(policyId)
 
 	internalRelationship := r.mapper.ToInternal(relationship)
+	found, err := relationshipStore.Has(&internalRelationship)
+	if err != nil {
+		return nil, err
+	}
+	if !found {
+		return nil, nil
+	}
+
 	id := r.relationshipIDer.Id(&internalRelationship)
 	dataOpt, err := relationshipDataStore.GetObject(id)
 	if err != nil {
@@ -201,7 +209,8 @@ func (r *policyRepository) FindRelationshipRecords(ctx context.Context, policyId
 		return nil, err
 	}
 
-	return records, nil
+	// a relationship whose change was interrupted has no record
+	return utils.Filter(records, func(record *domain.RelationshipRecord) bool { return record != nil }), nil
 }
 
 func (r *policyRepository) DeleteRelationships(ctx context.Context, policyId string, selector *domain.RelationshipSelector) (uint64, error) {
diff --git a/internal/store/kv_store/relationship_store.go b/internal/store/kv_store/relationship_store.go
new file mode 100644
index 0000000..4aaf1b2
--- /dev/null
+++ b/internal/store/kv_store/relationship_store.go
@@ -0,0 +1,125 @@
+package kv_store
+
+import (
+	rcdb "github.com/sourcenetwork/raccoondb"
+)
+
+// relationshipStore wraps a RaccoonStore, which neither reports the errors of the KVStore
+// nor updates its indexes atomically.
+type relationshipStore struct {
+	store rcdb.RaccoonStore[*Relationship, *RelationNode]
+	kv    *deferredKV
+}
+
+func newRelationshipStore(kv rcdb.KVStore) relationshipStore {
+	factory := func() *Relationship { return &Relationship{} }
+	deferred := &deferredKV{KVStore: kv}
+	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
+		Store:     deferred,
+		Keyer:     &relationNodeKeyer{},
+		Marshaler: rcdb.ProtoMarshaler[*Relationship](factory),
+	}
+	return relationshipStore{
+		store: rcdb.NewRaccoonStore(schema),
+		kv:    deferred,
+	}
+}
+
+func (s *relationshipStore) Set(relationship *Relationship) error {
+	if err := s.store.Set(relationship); err != nil {
+		return err
+	}
+	return s.kv.flush()
+}
+
+func (s *relationshipStore) Delete(relationship *Relationship) error {
+	if err := s.store.Delete(relationship); err != nil {
+		return err
+	}
+	return s.kv.flush()
+}
+
+func (s *relationshipStore) Has(relationship *Relationship) (bool, error) {
+	opt, err := s.store.Get(relationship.GetSource(), relationship.GetDest())
+	if err == nil {
+		err = s.kv.err
+	}
+	return !opt.IsEmpty(), err
+}
+
+func (s *relationshipStore) GetSucessors(node *RelationNode) ([]*Relationship, error) {
+	relationships, err := s.store.GetSucessors(node)
+	if err == nil {
+		err = s.kv.err
+	}
+	return relationships, err
+}
+
+func (s *relationshipStore) List() ([]*Relationship, error) {
+	relationships, err := s.store.List()
+	if err == nil {
+		err = s.kv.err
+	}
+	return relationships, err
+}
+
+// deferredKV records read errors and holds writes back until flushed.
+//
+// Writes are applied in the reverse order: RaccoonStore sets the outgoing index before and deletes it
+// after the incoming one. Reversing it guarantees that a relationship which grants access, through the
+// outgoing index, is always found in the incoming one, which lists the relationships to be deleted.
+type deferredKV struct {
+	rcdb.KVStore
+	writes []func() error
+	err    error
+}
+
+func (kv *deferredKV) Get(key []byte) ([]byte, error) {
+	value, err := kv.KVStore.Get(key)
+	kv.record(err)
+	return value, err
+}
+
+func (kv *deferredKV) Set(key, value []byte) error {
+	kv.writes = append(kv.writes, func() error { return kv.KVStore.Set(key, value) })
+	return nil
+}
+
+func (kv *deferredKV) Delete(key []byte) error {
+	kv.writes = append(kv.writes, func() error { return kv.KVStore.Delete(key) })
+	return nil
+}
+
+func (kv *deferredKV) Iterator(start, end []byte) rcdb.Iterator {
+	return &deferredIterator{
+		Iterator: kv.KVStore.Iterator(start, end),
+		kv:       kv,
+	}
+}
+
+func (kv *deferredKV) flush() error {
+	for i := len(kv.writes) - 1; i >= 0; i-- {
+		if err := kv.writes[i](); err != nil {
+			return err
+		}
+	}
+	kv.writes = nil
+	return nil
+}
+
+func (kv *deferredKV) record(err error) {
+	if err != nil && kv.err == nil {
+		kv.err = err
+	}
+}
+
+// deferredIterator records the error of an iterator once it is consumed
+type deferredIterator struct {
+	rcdb.Iterator
+	kv *deferredKV
+}
+
+func (i *deferredIterator) Close() error {
+	i.kv.record(i.Iterator.Error())
+	return i.Iterator.Close()
+}
-- 
2.43.0


From aaad6ecb595de8b8cd60e8b35f43017ddfb23076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:48 +0000
Subject: [PATCH 21/27] fix: escape the null character in dot strings

---
 internal/relation_graph/goal_tree_serializer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 386f1f0..4ea7dd5 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -185,8 +185,9 @@ func (s *dotSerializer) sprintf(format string, args ...any) string {
 }
 
 // quoteDOT builds a quoted DOT string, escaping the characters which have a meaning in it
+// and the null character, which DOT does not allow
 func quoteDOT(str string) string {
-	replacer := strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+	replacer := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\x00", "\\\\0")
 	return "\"" + replacer.Replace(str) + "\""
 }
 
-- 
2.43.0


From 827200342d8cf85a81e7325a8d8e8cff53a2c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:42 +0000
Subject: [PATCH 22/27] fix: format parser errors only when read

---
 .../relation_expression_parser/primitives.go     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/relation_expression_parser/primitives.go b/internal/relation_expression_parser/primitives.go
index 221e63c..1992936 100644
--- a/internal/relation_expression_parser/primitives.go
+++ b/internal/relation_expression_parser/primitives.go
@@ -18,9 +18,21 @@ func unit(tokens []token) (token, error, []token) {
 	return tokens[0], nil, tokens[1:]
 }
 
+// parserErr is formatted when it is read: combinators create an error for every alternative they try,
+// and printing all tokens left to parse every time would make parsing quadratic
+type parserErr struct {
+	tokens []token
+	msg    string
+	args   []any
+}
+
+func (e *parserErr) Error() string {
+	msg := fmt.Sprintf(e.msg, e.args...)
+	return fmt.Sprintf("error parsing: %v: have: %v", msg, e.tokens)
+}
+
 func buildErr(tokens []token, msg string, args ...any) error {
-	msg = fmt.Sprintf(msg, args...)
-	return fmt.Errorf("error parsing: %v: have: %v", msg, tokens)
+	return &parserErr{tokens: tokens, msg: msg, args: args}
 }
 
 // combinators
-- 
2.43.0


From bbe5f7e3ce907cf915b42a43d342aba75c2a4e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:58 +0000
Subject: [PATCH 23/27] fix: bound the size of relation expressions

---
 internal/relation_expression_parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/relation_expression_parser/parser.go b/internal/relation_expression_parser/parser.go
index 3f7035f..2496ceb 100644
--- a/internal/relation_expression_parser/parser.go
+++ b/internal/relation_expression_parser/parser.go
@@ -10,6 +10,10 @@ import (
 
 type Term = *domain.RelationExpressionTree
 
+// maxTokens bounds the size of an expression: parsing and evaluation are recursive,
+// larger expressions could exhaust the stack
+const maxTokens = 10000
+
 func Parse(expression string) (Term, error) {
 	lexer, tokenChan := NewLexer(expression)
 	go lexer.Lex()
@@ -19,6 +23,10 @@ func Parse(expression string) (Term, error) {
 		return nil, fmt.Errorf("error parsing expression %v: %v", expression, last.Lexeme)
 	}
 
+	if len(tokens) > maxTokens {
+		return nil, fmt.Errorf("error parsing expression: too large: %v tokens, at most %v are allowed", len(tokens), maxTokens)
+	}
+
 	expr, err, tail := expressionParser(tokens)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e084e4681084f3b52043c5954771a430cd3571cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 24/27] fix: report repeated yaml keys once

A mapping repeating a key thousands of times exhausted the memory.
---
 pkg/policy_definition/unmarshaler.go | 41 +++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/pkg/policy_definition/unmarshaler.go b/pkg/policy_definition/unmarshaler.go
index 3b4f4ec..fe71bce 100644
--- a/pkg/policy_definition/unmarshaler.go
+++ b/pkg/policy_definition/unmarshaler.go
@@ -9,12 +9,22 @@ import (
 
 // UnmarshalPolicyDefinition receives a policy as a yaml string and returns the parsed Policy object
 func UnmarshalPolicyDefinition(policyYaml string) (*PolicyDefinition, error) {
+	document := yaml.Node{}
+	err := yaml.NewDecoder(strings.NewReader(policyYaml)).Decode(&document)
+	if err != nil {
+		return nil, fmt.Errorf("could not parse policy: %w", err)
+	}
+	err = validateUniqueKeys(&document)
+	if err != nil {
+		return nil, fmt.Errorf("could not parse policy: %w", err)
+	}
+
 	reader := strings.NewReader(policyYaml)
 	decoder := yaml.NewDecoder(reader)
 	decoder.KnownFields(true)
 
 	policyDef := PolicyDefinition{}
-	err := decoder.Decode(&policyDef)
+	err = decoder.Decode(&policyDef)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse policy: %w", err)
 	}
@@ -24,6 +34,35 @@ func UnmarshalPolicyDefinition(policyYaml string) (*PolicyDefinition, error) {
 	return &policyDef, nil
 }
 
+// validateUniqueKeys reports the first repeated key within a mapping.
+// The yaml decoder reports each pair of repeated keys, which exhausts the memory for a mapping with many of them.
+func validateUniqueKeys(node *yaml.Node) error {
+	type key struct {
+		kind  yaml.Kind
+		value string
+	}
+
+	if node.Kind == yaml.MappingNode {
+		keys := make(map[key]int)
+		for i := 0; i < len(node.Content); i += 2 {
+			keyNode := node.Content[i]
+			k := key{kind: keyNode.Kind, value: keyNode.Value}
+			if line, ok := keys[k]; ok {
+				return fmt.Errorf("line %d: mapping key %q already defined at line %d", keyNode.Line, keyNode.Value, line)
+			}
+			keys[k] = keyNode.Line
+		}
+	}
+
+	for _, child := range node.Content {
+		err := validateUniqueKeys(child)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func setEntityNames(p *PolicyDefinition) {
 
 	for resName, resource := range p.Resources {
-- 
2.43.0


From 99bbec7c4eab666059d8603c0cd07839fd9274f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:44 +0000
Subject: [PATCH 25/27] fix: reject expression trees too deep to be read back

---
 internal/policy/spec.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 02444ab..59a81a8 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -6,6 +6,10 @@ import (
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 )
 
+// maxTreeDepth bounds the nesting of expression trees. Protobuf does not decode messages
+// nested too deeply, a policy with such a tree could be stored but not read.
+const maxTreeDepth = 4000
+
 type ValidPolicySpec struct{}
 
 func (s *ValidPolicySpec) Verify(policy *domain.Policy) error {
@@ -17,6 +21,10 @@ func (s *ValidPolicySpec) Verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
+	if err := s.ExpressionTreesBounded(policy); err != nil {
+		return err
+	}
+
 	lut := NewPolicyLookUpTable(policy)
 
 	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
@@ -110,6 +118,26 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 	return nil
 }
 
+func (s *ValidPolicySpec) ExpressionTreesBounded(policy *domain.Policy) error {
+	for _, resource := range policy.Resources {
+		for _, relation := range resource.GetRelations() {
+			tree := relation.GetRelationExpression().GetTree()
+			if s.deeperThan(tree, maxTreeDepth) {
+				return fmt.Errorf("resource %v: relation %v: tree is nested more than %v levels deep: %w", resource.Name, relation.Name, maxTreeDepth, ErrRelExpTree)
+			}
+		}
+	}
+	return nil
+}
+
+func (s *ValidPolicySpec) deeperThan(tree *domain.RelationExpressionTree, depth int) bool {
+	node := tree.GetOpNode()
+	if node == nil {
+		return false
+	}
+	return depth == 0 || s.deeperThan(node.Left, depth-1) || s.deeperThan(node.Right, depth-1)
+}
+
 // wellFormedTree verifies that tree contains no missing nodes or unknown operators
 func (s *ValidPolicySpec) wellFormedTree(tree *domain.RelationExpressionTree) error {
 	switch node := tree.GetNode().(type) {
-- 
2.43.0


From 597eb26c0998cc347b772fcdaf751754eadce701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:24 +0000
Subject: [PATCH 26/27] fix: zanzid ends with an error status when it does not
 understand its flags

---
 cmd/zanzid/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/zanzid/main.go b/cmd/zanzid/main.go
index 60abdf1..b7bd3db 100644
--- a/cmd/zanzid/main.go
+++ b/cmd/zanzid/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"log"
+	"os"
 
 	"github.com/spf13/cobra"
 
@@ -10,7 +11,9 @@ import (
 )
 
 func main() {
-	rootCmd.Execute()
+	if err := rootCmd.Execute(); err != nil {
+		os.Exit(1)
+	}
 }
 
 var dataDir string
-- 
2.43.0


From 39e5810457f884aa87ae3c322153ab6ac22cd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:22 +0000
Subject: [PATCH 27/27] fix: escape quotes and backslashes in the labels of a
 DOT drawing

GraphToDOT escaped the quotes of node ids but not those of their data, and
backslashes nowhere, so such a graph came out as an invalid document.
---
 pkg/types/graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/types/graph.go b/pkg/types/graph.go
index faa60f3..b1a04c3 100644
--- a/pkg/types/graph.go
+++ b/pkg/types/graph.go
@@ -68,10 +68,10 @@ func GraphToDOT(graph *MapDiGraph) string {
 }
 
 func mapId(id string) string {
-	id = strings.ReplaceAll(id, "\"", "\\\"")
 	return wrap(id)
 }
 
 func wrap(txt string) string {
-	return "\"" + txt + "\""
+	replacer := strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+	return "\"" + replacer.Replace(txt) + "\""
 }
-- 
2.43.0

