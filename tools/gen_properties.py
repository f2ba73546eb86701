#!/usr/bin/env python3
"""Writes ../properties.jsonl (the source of the statements, kept readable here)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


RG = "internal/relation_graph/"
KV = "internal/store/kv_store/"
PO = "internal/policy/"

prop("C01", "Check answers exactly what the policy and its relationships define",
     "Check grants access exactly when the subject belongs to the set of subjects which the policy's relation expressions and the stored relationships define for the object and relation: direct entities, nested usersets, wildcards over a resource, computed usersets and tuple-to-usersets, combined by union, intersection and difference, as a least fixpoint where usersets form cycles (cycles through the subtracted side of a difference excepted). "
     "It terminates for every graph, however deep, wide, shared or cyclic. "
     "For a policy, resource or relation which is not defined it answers with an error, never with a grant or a denial; so too when the decision depends on a relation reached on the way which its resource does not define, or on a wildcard standing in a tupleset.",
     ["inputs", "programs"], "for every valid policy, set of relationships, object, relation and subject",
     "The tests check a handful of fixed policies with a few relationships; which combinations of nesting, sharing, cycles and operators are answered wrongly depends on the whole graph.",
     [RG + "searcher.go", RG + "goal_tree.go", RG + "rule_evaluator.go", RG + "service.go", KV + "node_repository.go", "pkg/domain/relation_graph.go"],
     [("goal tree search with per-path cycle cutting", RG + "searcher.go"), ("rule evaluation (this, computed userset, tuple to userset)", RG + "rule_evaluator.go"), ("node identity", "pkg/domain/relation_graph.go: RelationNode.Id")],
     ["RelationGraph.Check"])

prop("C02", "Check depends only on the current content of the policy",
     "Two policies with the same definition and the same set of relationships give the same answer to every Check, whatever history of writes, overwrites, deletions, re-insertions, policy updates, failed operations and other policies led there, in whatever order. "
     "Renaming policies, resources, relations or object ids consistently, or adding unrelated resources and objects, does not change an answer. "
     "In a policy without differences, adding a relationship never revokes an access.",
     ["histories", "inputs"], "for every pair of histories leading to the same content, every renaming and every check",
     "Tests load one fixture once, in one order, with plain names, and never compare two histories.",
     [RG + "searcher.go", KV + "policy_repository.go", KV + "node_repository.go", KV + "model.go"],
     [("keys derived from every component of a relationship", KV + "model.go"), ("search result independent of the order of successors", RG + "searcher.go")],
     ["RelationGraph.Check after two different histories"])

prop("C03", "Relationships behave as a set keyed by every field of the relationship",
     "After any sequence of sets and deletes, getting and listing relationships returns exactly those set and not deleted since, each exactly once, with the app data of its last set and its creation time; relationships which differ in any field (object resource or id, relation, subject kind, subject resource, id or relation) are distinct whatever their names contain. "
     "Set reports whether it overwrote, delete reports whether it found the relationship, and neither affects another relationship. Relationships made by RelationshipBuilder have the components given to it.",
     ["histories", "inputs"], "for every sequence of operations over every set of relationships, with arbitrary names",
     "Tests write a few relationships with plain names; confusions show only for particular pairs of names, kinds and orders of operations.",
     [KV + "policy_repository.go", KV + "model.go", KV + "mapper.go", PO + "service.go"],
     [("node keys and relationship ids", KV + "model.go: relationNodeKeyer"), ("mapping between public and stored form", KV + "mapper.go")],
     ["SetRelationship", "GetRelationship", "FindRelationshipRecords", "DeleteRelationship"])

prop("C04", "Policies are isolated from each other",
     "An operation on a policy neither reads nor changes anything of another policy: policies with any two distinct ids, however similar, keep separate relationships, app data and answers. So do instances with stores of their own. "
     "Deleting a policy removes all of its relationships and nothing else, and a policy created again under the same id starts empty.",
     ["histories", "inputs"], "for every set of distinct policy ids and every interleaved sequence of operations on them",
     "Tests use one policy, or two with unrelated ids; leaks depend on particular ids (prefixes, separators, empty parts).",
     [KV + "kv_store.go", KV + "policy_repository.go", PO + "service.go"],
     [("per policy key prefix", KV + "kv_store.go"), ("delete cascade", PO + "service.go: DeletePolicy")],
     ["all policy and relationship operations", "Check", "DumpRelationships"])

prop("C05", "Selectors find and delete exactly the matching relationships",
     "Finding relationships by a selector returns exactly the relationships matching its object part (any, one resource, one object), relation part (any, one) and subject part (any, one resource, one exact subject), each once with its record, whether the caller is embedded or remote. "
     "Deleting by a selector removes exactly those and reports how many they were. "
     "Searching with a selector that has a missing part or names a resource or an object relation which the policy does not define is an error, and a delete with such a selector removes nothing. Selectors made by SelectorBuilder have the parts given to it.",
     ["inputs", "histories"], "for every set of relationships and every selector",
     "Tests use two or three selectors over a few relationships.",
     [PO + "selector_spec.go", PO + "spec.go", PO + "service.go", KV + "policy_repository.go", "pkg/domain/selector.go", "pkg/domain/relationship.go"],
     [("selector predicates", PO + "selector_spec.go"), ("selector validation", PO + "spec.go: ValidSelectorSpec")],
     ["FindRelationshipRecords", "DeleteRelationships"])

prop("C06", "A relationship is accepted exactly when the policy allows it",
     "Setting a relationship succeeds exactly when the policy exists, every field is present, the object's resource and relation and the subject's resource (and relation) are defined, and the relation's subject restriction allows the subject: any subject for the universal restriction, otherwise an entity or wildcard of a listed resource or a userset of a listed resource and relation. "
     "A rejected relationship changes nothing.",
     ["inputs"], "for every policy, restriction and relationship",
     "Tests try a few allowed and rejected relationships of one policy.",
     [PO + "spec.go", PO + "service.go"],
     [("admission checks", PO + "spec.go: AllowedRelationshipSpec, SubjectRestrictionSpec")],
     ["SetRelationship"])

prop("C07", "A policy is accepted exactly when it is well formed",
     "Creating or updating a policy succeeds exactly when it has an id, its resources and the relations of each resource have unique non-empty names, every relation has a well-formed expression (a text of at most ten thousand tokens, or a tree nested at most four thousand levels deep) whose computed usersets and tuplesets name relations of the same resource, and every subject restriction refers to defined resources and relations. "
     "A rejected definition leaves the stored policy and relationships unchanged.",
     ["inputs", "programs"], "for every policy definition, well formed or not",
     "Tests reject a handful of malformed policies and accept a handful of good ones.",
     [PO + "spec.go", PO + "service.go", PO + "helpers.go", "pkg/domain/policy.pb.validate.go"],
     [("policy validation", PO + "spec.go: ValidPolicySpec")],
     ["CreatePolicy", "UpdatePolicy"])

prop("C08", "Policies are created, updated, listed and deleted as a map by id",
     "After any sequence of creates, updates and deletes, the stored policies are exactly those created and not deleted since, each returned as last written with its app data and original creation time, and the listing contains every id exactly once. "
     "Creating an existing id and updating a missing one are errors that change nothing, updating keeps the relationships, deleting reports whether the policy was found and how many relationships went with it. "
     "No operation blocks those that follow it, however many policies there are.",
     ["histories", "inputs"], "for every sequence of policy operations, with arbitrary ids and any number of policies",
     "Tests exercise each operation once with one or two policies.",
     [PO + "service.go", KV + "policy_repository.go", KV + "kv_store.go"],
     [("policy store", KV + "policy_repository.go"), ("existence checks", PO + "service.go")],
     ["CreatePolicy", "UpdatePolicy", "DeletePolicy", "GetPolicy", "ListPolicyIds"])

prop("C09", "Relation expressions mean what the expression language defines",
     "A text (of at most ten thousand tokens; longer ones are rejected) is accepted as a relation expression exactly when the grammar derives it: terms are _this, a relation name, tupleset->relation or a parenthesized expression, joined by + (union), & (intersection) and - (difference), left associative with equal precedence, white space being insignificant. "
     "An accepted text means the same as the equivalent expression tree: access decisions under either are the same for every combination of memberships, and a tree written as a text by RelationExpression() is an expression which means the same as the tree. "
     "Every other text is rejected with an error.",
     ["programs", "inputs"], "for every expression text and every membership assignment",
     "Tests parse about ten expressions and compare trees; decisions are not evaluated from text for nested or unusual forms.",
     ["internal/relation_expression_parser/lexer.go", "internal/relation_expression_parser/parser.go", "internal/relation_expression_parser/primitives.go", RG + "goal_tree.go", PO + "helpers.go"],
     [("parser combinators", "internal/relation_expression_parser"), ("goal tree from expression tree", RG + "goal_tree.go")],
     ["CreatePolicy (acceptance)", "Check (meaning)"])

prop("C10", "A YAML policy equals the structured policy it describes",
     "A policy given as YAML is stored as exactly the structured policy it describes: id, name, doc, attributes, every resource and relation with its doc and expression, and the subject types, where '*' allows any subject, 'resource' that resource and 'resource:relation' that userset. "
     "Validity, admission and decisions are the same as for the structured form. The same document always gives the same policy. "
     "YAML which is malformed or has unknown fields is rejected, and nothing is stored.",
     ["inputs", "programs"], "for every policy expressible in YAML, and every malformed document",
     "Tests map two or three documents.",
     ["pkg/policy_definition/unmarshaler.go", "pkg/policy_definition/mapper.go", PO + "helpers.go"],
     [("YAML unmarshalling with known fields only", "pkg/policy_definition/unmarshaler.go"), ("mapping to the structured policy", "pkg/policy_definition/mapper.go")],
     ["CreatePolicy", "UpdatePolicy", "GetPolicy"])

prop("C11", "Explanations and expansions faithfully represent the decision",
     "ExplainCheck reports the same decision as Check and, in each format, a well-formed document naming the format asked for, whose tree starts at the request, whose nodes are objects and relations the policy and relationships lead to, and whose results are consistent: an operator's result follows from its operands', a node reported as success is one the subject has, and a node reported as failure is one the subject lacks unless its exploration was cut at a cycle. "
     "Expand returns, in each format, a well-formed tree containing exactly the usersets, entities and wildcards reachable from the root through the policy's expressions.",
     ["inputs", "programs"], "for every policy, set of relationships, request and format, with arbitrary names",
     "Tests only look at one explanation's success and do not parse the documents.",
     [RG + "service.go", RG + "goal_tree_serializer.go", RG + "searcher.go", RG + "types.go"],
     [("serializers", RG + "goal_tree_serializer.go"), ("goal tree", RG + "searcher.go")],
     ["ExplainCheck", "Expand"])

prop("C12", "Dumping relationships renders exactly the stored graph",
     "DumpRelationships returns a valid directed DOT graph which has, apart from a synthetic root and its edges, exactly one edge for each stored relationship of the policy, from object and relation to subject, between nodes labelled accordingly, with every node reachable from the root. "
     "It terminates whatever the graph's shape, cycles included, and whatever the names contain.",
     ["inputs"], "for every set of relationships, including cyclic ones, with arbitrary names",
     "Tests dump one acyclic graph and do not parse the result.",
     [RG + "walker.go", RG + "relation_tree_serializer.go", KV + "node_repository.go", "pkg/domain/relation_graph.go"],
     [("graph walk", RG + "walker.go"), ("DOT serializer", RG + "relation_tree_serializer.go")],
     ["DumpRelationships"])

prop("C13", "No request crashes or wedges the service",
     "Every request that can arrive in encoded form, whatever is missing, empty, contradictory, unknown, deeply nested or strangely named in it, is answered with a response or an error: never with a panic and never by hanging. "
     "Afterwards the service still answers correctly, and a request answered with an error has changed nothing. "
     "A call whose context is cancelled gives the answer it would give otherwise, or an error.",
     ["inputs", "histories"], "for every encodable request of every operation, in every state",
     "Tests send well-formed requests; robustness is about the others.",
     [PO + "service.go", PO + "spec.go", PO + "helpers.go", RG + "service.go", RG + "rule_evaluator.go", "internal/relation_expression_parser", "pkg/policy_definition"],
     [("request validation", PO + "spec.go"), ("error returns instead of panics", RG + "rule_evaluator.go")],
     ["every operation of both services"])

prop("C14", "Acknowledged writes survive a restart on disk",
     "With the on-disk store, whatever was acknowledged before the process ended, cleanly or abruptly, is there when the same data directory is opened again: the same policies, relationships, app data, creation times and Check answers, and nothing else. "
     "Instances using different data directories share nothing.",
     ["histories", "crash_points"], "for every sequence of operations, with restarts between any two of them",
     "No test opens the on-disk store.",
     ["zanzi.go", KV + "kv_store.go", KV + "policy_repository.go"],
     [("LevelDB backed key value store", "zanzi.go: WithDefaultKVStore"), ("all state kept in the key value store", KV + "kv_store.go")],
     ["all operations of an instance opened on the same directory"])

prop("C15", "Concurrent operations behave as if executed one at a time",
     "Whatever the interleaving of concurrent operations, the results of those which modify something and the final state are those of some sequential execution of them which respects their order in time: exactly one of several concurrent creates of a policy id succeeds, no acknowledged update is lost, no relationship outlives the deletion of its policy and none is added to a policy whose deletion was acknowledged. A concurrent read reports each record as it was at some moment during the read. "
     "Concurrent operations never deadlock, crash or race on memory.",
     ["schedules"], "for every set of concurrent operations and every interleaving of their store accesses",
     "Tests are sequential.",
     [PO + "service.go", KV + "policy_repository.go", RG + "service.go"],
     [("lock over mutating operations", PO + "service.go: writeLock"), ("search state created per request", RG + "service.go")],
     ["results and final state of concurrent calls"])

prop("C16", "A crash in the middle of an operation leaves a usable, honest state",
     "If the process dies after any prefix of the store writes of an operation, then after a restart every operation still works, everything acknowledged before and not touched by the interrupted operation is intact, and every relationship that grants access is listed and can be deleted. What the interrupted operation was to change is as it was or as it was to be, and nothing that is there both before and after it is gone. "
     "Repeating the interrupted operation brings the state it would have brought, and a policy whose deletion was interrupted never leaves relationships behind for a policy created later under its id.",
     ["crash_points", "histories"], "for every history, operation and number of store writes completed when the process dies",
     "Tests never interrupt an operation.",
     [KV + "relationship_store.go", KV + "policy_repository.go", PO + "service.go"],
     [("order of index, data and policy writes", KV + "relationship_store.go, " + PO + "service.go: DeletePolicy")],
     ["all operations after reopening the truncated store"])

prop("C17", "A failing store is reported, never mistaken for success or absence",
     "When any access of the underlying store fails during an operation, the operation returns an error: a write that did not fully take effect is not acknowledged, a failed read is not reported as 'not found', as an empty or partial list, or as an access decision. "
     "When the store works again, the service works again without a restart, and the data not touched by the failed operation, or the same before and after it, is intact.",
     ["fault_sequences", "histories"], "for every history, operation and store access that fails",
     "Tests run on a store that never fails.",
     [KV + "relationship_store.go", KV + "policy_repository.go", KV + "node_repository.go", PO + "service.go", RG + "service.go"],
     [("error propagation", KV + "relationship_store.go: deferredKV")],
     ["every operation over a store with injected failures"])

prop("C18", "The gRPC server and the HTTP gateway answer as the embedded library does",
     "Every operation of both services called through the gRPC server with a message within gRPC's default size limit gives the same result as the same call on an embedded instance in the same state: equal responses, and an error exactly where the embedded call gives one. "
     "So does the JSON encoding of the request posted to the generated HTTP gateway (POST /<service>/<method>), connected to a server or to the services directly: status 200 and the JSON of the response, or an error status exactly where the embedded call gives an error. "
     "A remote caller's bad request never takes the server down.",
     ["inputs", "histories"], "for every sequence of requests, including malformed ones",
     "No test starts the server.",
     ["pkg/server/server.go", "pkg/api", "zanzi.go"],
     [("service registration", "pkg/server/server.go: registerGRPCServices")],
     ["gRPC clients of the running server", "HTTP clients of the gateway handlers"])

prop("C19", "Reads change nothing, and stored data is independent of callers' messages",
     "Getting, listing, finding, checking, explaining, expanding and dumping never write to the store, and repeating one returns the same answer. "
     "What is stored is what was given at the time of the call: changing a request message afterwards, or a message returned by an operation, does not change what later operations return.",
     ["histories", "inputs"], "for every state, every read operation and every later mutation of request and response messages",
     "Tests never look for writes during reads nor reuse messages.",
     [KV + "policy_repository.go", PO + "service.go", RG + "service.go"],
     [("records are serialized into the store", KV + "policy_repository.go")],
     ["store writes during reads", "results after mutating messages"])

prop("C20", "The daemon serves its directory at its address, the client sends what it is told",
     "zanzid --data_dir D --address A keeps its data in D and nowhere else, answers at A, and at no other address, as an embedded instance on D would, and a daemon ended in any way (also killed) and started again with D answers as before; daemons with different directories share nothing. "
     "One that cannot open D or listen at A, or does not understand its flags, ends with a non-zero status and leaves a running one undisturbed. "
     "zanzi-cli SERVICE METHOD -s A sends the request given as JSON on standard input (-f -), in a file (-f FILE), by flags, or part by flags and part as JSON, prints the response as JSON and ends with status 0; it ends with a non-zero status exactly if the request is rejected or the server is not reached.",
     ["histories", "inputs", "configurations"], "for every data directory, every address, every history of requests and ways of sending them, and every way of ending the daemon",
     "No test runs the programs.",
     ["cmd/zanzid/main.go", "cmd/zanzi-cli/main.go", "pkg/server/server.go", "pkg/api/policy_service.cobra.pb.go", "pkg/api/relation_graph.cobra.pb.go", "zanzi.go"],
     [("the daemon's command", "cmd/zanzid/main.go: rootCmd"), ("the client's commands", "cmd/zanzi-cli/main.go"), ("listening", "pkg/server/server.go: initSocket")],
     ["the daemon's answers over gRPC", "exit status and output of both programs", "files below the data, working and home directories"])

prop("C21", "Exported graph types and domain helpers are faithful to the data put in",
     "A MapGraph holds exactly the nodes set last under each id and the edges set between nodes it has: successors and ancestors are the nodes at the other ends of the edges, each once, and an edge to or from a missing node is an error that changes nothing. "
     "A MapDiGraph holds exactly the nodes and edges added, in both directions, also through its encoding, and GraphToDOT draws it as a DOT document with exactly its nodes, each under its id with its data as label, and its edges, whatever ids and data contain (but for the null character). "
     "The ids of two RelationNodes are equal exactly if the nodes are; GetObject, IsEntity, IsTerminalNode, GetResourceName, GetResourceByName, GetRelationByName and GetRules return what the value they are called on contains, and entities, records, expression trees, Options and Pairs made by the exported constructors hold what was given to them, records the time too.",
     ["inputs", "histories"], "for every sequence of additions, every pair of nodes and every policy",
     "One test sets three nodes with plain names; nothing draws a graph.",
     ["pkg/types/map_graph.go", "pkg/types/graph.go", "pkg/types/option.go", "pkg/types/tuple.go", "pkg/domain/relation_graph.go", "pkg/domain/relationship.go", "pkg/domain/policy.go", "pkg/domain/relation_expression_tree.go"],
     [("graph containers", "pkg/types/map_graph.go, pkg/types/graph.go"), ("helpers", "pkg/domain/*.go")],
     ["return values of the exported functions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
