-------------------------------- MODULE Dag --------------------------------
(* Dependency graph: nodes identified by an id, directed edges ancestor -> descendant.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Ids,        \* the identifiers used by the exhaustive model
          SelfLoops   \* whether an edge may join a node to itself

VARIABLES nodes,      \* set of ids
          edges,      \* set of <<ancestor, descendant>>
          act         \* last action, its arguments and its result

vars == <<nodes, edges, act>>

-----------------------------------------------------------------------------
\* Derived notions, for any node set N and edge set E

Ancestors(E, n)   == { e[1] : e \in { x \in E : x[2] = n } }
Descendants(E, n) == { e[2] : e \in { x \in E : x[1] = n } }
Roots(N, E) == { n \in N : Ancestors(E, n) = {} }
Leafs(N, E) == { n \in N : Descendants(E, n) = {} }

\* Layers(E, F, S): breadth first layers, F is the current layer, S the set of nodes already seen
RECURSIVE Layers(_, _, _)
Layers(E, F, S) == IF F = {} THEN <<>>
                   ELSE LET G == UNION { Descendants(E, n) : n \in F } \ S
                        IN <<F>> \o Layers(E, G, S \cup G)
Bfs(E, n) == Layers(E, {n}, {n})

RECURSIVE Reach(_, _)
Reach(E, S) == LET T == S \cup UNION { Descendants(E, n) : n \in S }
               IN IF T = S THEN S ELSE Reach(E, T)

Cyclic(N, E) == \E n \in N : n \in Reach(E, Descendants(E, n))

\* s is a linear extension of the graph
IsTopological(N, E, s) ==
    /\ Len(s) = Cardinality(N)
    /\ { s[i] : i \in DOMAIN s } = N
    /\ \A i, j \in DOMAIN s : <<s[i], s[j]>> \in E => i < j

\* s visits the nodes reachable from n, each once, by increasing distance
IsBreadthFirst(E, n, s) ==
    LET layers == Bfs(E, n)
        level(m) == CHOOSE k \in DOMAIN layers : m \in layers[k]
    IN /\ { s[i] : i \in DOMAIN s } = Reach(E, {n})
       /\ Len(s) = Cardinality(Reach(E, {n}))
       /\ \A i, j \in DOMAIN s : i < j => level(s[i]) <= level(s[j])

-----------------------------------------------------------------------------
Init == nodes = {} /\ edges = {} /\ act = <<"init">>

AddNode(n) == /\ n \notin nodes
              /\ nodes' = nodes \cup {n}
              /\ UNCHANGED edges
              /\ act' = <<"add_node", n, "ok">>

RefuseNode(n) == /\ n \in nodes
                 /\ UNCHANGED <<nodes, edges>>
                 /\ act' = <<"add_node", n, "NameError">>

Connect(a, d) == /\ a \in nodes /\ d \in nodes
                 /\ edges' = edges \cup {<<a, d>>}
                 /\ UNCHANGED nodes
                 /\ act' = <<"connect", a, d, "ok">>

Disconnect(a, d) == /\ <<a, d>> \in edges
                    /\ edges' = edges \ {<<a, d>>}
                    /\ UNCHANGED nodes
                    /\ act' = <<"disconnect", a, d, "ok">>

RefuseDisconnect(a, d) == /\ a \in nodes /\ d \in nodes /\ <<a, d>> \notin edges
                          /\ UNCHANGED <<nodes, edges>>
                          /\ act' = <<"disconnect", a, d, "KeyError">>

Pairs == { p \in Ids \X Ids : SelfLoops \/ p[1] # p[2] }

Next == \/ \E n \in Ids : AddNode(n) \/ RefuseNode(n)
        \/ \E p \in Pairs : Connect(p[1], p[2]) \/ Disconnect(p[1], p[2]) \/ RefuseDisconnect(p[1], p[2])

Spec == Init /\ [][Next]_vars

View == <<nodes, edges>>

-----------------------------------------------------------------------------
\* Theorems of the specification
Duality == \A a, d \in nodes : (a \in Ancestors(edges, d)) <=> (d \in Descendants(edges, a))
Closed == edges \subseteq nodes \X nodes
AcyclicHasRoot == (nodes # {} /\ ~ Cyclic(nodes, edges)) => Roots(nodes, edges) # {} /\ Leafs(nodes, edges) # {}

\* Permutations which sort the graph
Sequencings(N) == { s \in [1..Cardinality(N) -> N] : \A i, j \in DOMAIN s : s[i] = s[j] => i = j }
AcyclicIffSortable == (~ Cyclic(nodes, edges)) <=> (\E s \in Sequencings(nodes) : IsTopological(nodes, edges, s))

Obs == [ nodes |-> nodes, edges |-> edges,
         roots |-> Roots(nodes, edges), leafs |-> Leafs(nodes, edges),
         cyclic |-> Cyclic(nodes, edges),
         bfs |-> [ n \in nodes |-> Bfs(edges, n) ] ]

EmitStep == PrintT(ToJson([s |-> <<nodes, edges>>, a |-> act', t |-> <<nodes', edges'>>]))
EmitState == PrintT(ToJson([obs |-> <<nodes, edges>>, roots |-> Roots(nodes, edges), leafs |-> Leafs(nodes, edges),
                            cyclic |-> Cyclic(nodes, edges),
                            bfs |-> { <<n, Bfs(edges, n)>> : n \in nodes }]))

-----------------------------------------------------------------------------
\* Validation of traces recorded from the code.
\* A trace is a sequence of events [op, args, result, obs...]; the verdict of a trace is total: it names the
\* first event and the clause it breaks.

Traces == ndJsonDeserialize(IOEnv.VF_IN)

VARIABLES tr, pos, verdict
tvars == <<nodes, edges, act, tr, pos, verdict>>

ToSet(s) == { s[i] : i \in DOMAIN s }

TraceInit == /\ tr \in DOMAIN Traces
             /\ pos = 1
             /\ verdict = "ok"
             /\ nodes = {} /\ edges = {} /\ act = <<"init">>

Ev == Traces[tr][pos]

\* The action of the specification explained by the event, with the result it must give
Explained ==
    CASE Ev.op = "add_node"   -> (AddNode(Ev.a) \/ RefuseNode(Ev.a)) /\ act'[3] = Ev.result
      [] Ev.op = "connect"    -> Connect(Ev.a, Ev.b) /\ act'[4] = Ev.result
      [] Ev.op = "disconnect" -> (Disconnect(Ev.a, Ev.b) \/ RefuseDisconnect(Ev.a, Ev.b)) /\ act'[4] = Ev.result
      [] Ev.op = "sort"       -> /\ UNCHANGED <<nodes, edges, act>>
                                 /\ IF Cyclic(nodes, edges) THEN Ev.result = "NameError"
                                    ELSE Ev.result = "ok" /\ IsTopological(nodes, edges, Ev.seq)
      [] Ev.op = "bfs"        -> /\ UNCHANGED <<nodes, edges, act>>
                                 /\ IsBreadthFirst(edges, Ev.a, Ev.seq)
      [] Ev.op = "roots"      -> UNCHANGED <<nodes, edges, act>> /\ ToSet(Ev.seq) = Roots(nodes, edges)
                                 /\ Len(Ev.seq) = Cardinality(Roots(nodes, edges))
      [] Ev.op = "leafs"      -> UNCHANGED <<nodes, edges, act>> /\ ToSet(Ev.seq) = Leafs(nodes, edges)
                                 /\ Len(Ev.seq) = Cardinality(Leafs(nodes, edges))
      [] Ev.op = "links"      -> /\ UNCHANGED <<nodes, edges, act>>
                                 /\ ToSet(Ev.anc) = Ancestors(edges, Ev.a)
                                 /\ ToSet(Ev.desc) = Descendants(edges, Ev.a)
      [] OTHER -> FALSE

Running == verdict = "ok" /\ pos <= Len(Traces[tr])

TraceStep == /\ Running
             /\ Explained
             /\ pos' = pos + 1
             /\ UNCHANGED <<tr, verdict>>

\* No action of the specification explains the event
TraceReject == /\ Running
               /\ ~ ENABLED (Explained /\ pos' = pos + 1 /\ UNCHANGED <<tr, verdict>>)
               /\ verdict' = Ev.op
               /\ UNCHANGED <<nodes, edges, act, tr, pos>>

TraceNext == TraceStep \/ TraceReject
TraceVerdict == (~ Running) => PrintT(ToJson([trace |-> tr, verdict |-> verdict, pos |-> pos,
                                              nodes |-> nodes, edges |-> edges]))

\* The exhaustive model does not use the variables of the traces
MInit == Init /\ tr = 0 /\ pos = 0 /\ verdict = ""
MNext == Next /\ UNCHANGED <<tr, pos, verdict>>
=============================================================================
