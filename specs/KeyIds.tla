------------------------------- MODULE KeyIds -------------------------------
(* The ids of the combinations of property values delivered in a job:       *)
(* kids, new   sequences of [props, id]: the ids seen so far, and in a chunk *)
EXTENDS ChunkGen

KidOf(kids, p) == {kids[x].id : x \in {y \in DOMAIN kids : SameKey(kids[y].props, p)}}

KeyIdsFailed(kids, new) ==
  (IF \A x \in DOMAIN new : new[x].id >= 0 THEN {} ELSE {"samples-of-one-key-under-several-ids"})
  \cup (IF \A x \in DOMAIN new : KidOf(kids, new[x].props) \subseteq {new[x].id} THEN {} ELSE {"key-changes-its-id"})
  \cup (IF \A x \in DOMAIN new : /\ \A y \in DOMAIN kids : kids[y].id = new[x].id => SameKey(kids[y].props, new[x].props)
                                 /\ \A y \in DOMAIN new : y # x => new[x].id # new[y].id
        THEN {} ELSE {"two-keys-share-an-id"})

RECURSIVE AddKids(_, _)
AddKids(kids, new) ==
  IF new = <<>> THEN kids
  ELSE AddKids(IF \E x \in DOMAIN kids : SameKey(kids[x].props, Head(new).props) THEN kids ELSE Append(kids, Head(new)), Tail(new))
=============================================================================
