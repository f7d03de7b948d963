------------------------------ MODULE Webhook ------------------------------
(* Webhook manifest generation.  A run sees packages in order; a package is a *)
(* record [cfgs, whs] of its configuration markers and webhook markers in     *)
(* source order.  Optional values are sequences of length 0 or 1.             *)
EXTENDS Lex, Integers

Canon(table, s) == LET k == {t \in table : Lower(t) = Lower(s)} IN IF k = {} THEN s ELSE CHOOSE t \in k : TRUE
Known(table, s) == \E t \in table : Lower(t) = Lower(s)
VerbTable == {"CREATE", "UPDATE", "DELETE", "CONNECT", "*"}
FailureTable == {"Ignore", "Fail"}
MatchTable == {"Exact", "Equivalent"}
SideTable == {"None", "NoneOnDryRun"}
ReinvTable == {"Never", "IfNeeded"}

OptStr(s) == IF s = "" THEN <<>> ELSE <<s>>
GroupName(g) == IF g = "core" THEN "" ELSE g

(* The entry a webhook marker stands for. *)
Entry(m) ==
  [ name |-> m.name,
    groups |-> [i \in 1..Len(m.groups) |-> GroupName(m.groups[i])],
    resources |-> m.resources, versions |-> m.versions,
    ops |-> [i \in 1..Len(m.verbs) |-> Canon(VerbTable, m.verbs[i])],
    failure |-> Canon(FailureTable, m.failure),
    match |-> IF m.match = "" THEN <<>> ELSE <<Canon(MatchTable, m.match)>>,
    side |-> IF m.side = "" THEN <<>> ELSE <<Canon(SideTable, m.side)>>,
    timeout |-> IF m.timeout = <<>> \/ m.timeout = <<0>> THEN <<>> ELSE m.timeout,
    arv |-> m.arv,
    reinv |-> IF m.mutating /\ Known(ReinvTable, m.reinv) THEN <<Canon(ReinvTable, m.reinv)>> ELSE <<>>,
    url |-> OptStr(m.url),
    service |-> IF m.path = "" THEN <<>>
                ELSE << [name |-> IF m.svcName = "" THEN "webhook-service" ELSE m.svcName,
                         ns |-> IF m.svcNs = "" THEN "system" ELSE m.svcNs,
                         path |-> m.path, port |-> m.port] >> ]

Invalid(m) ==
  \/ (m.path = "") = (m.url = "")
  \/ m.arv = <<>>
  \/ m.timeout # <<>> /\ m.timeout[1] # 0 /\ (m.timeout[1] < 1 \/ m.timeout[1] > 30)
  \/ ~Known(SideTable, m.side)
  \/ m.match # "" /\ ~Known(MatchTable, m.match)
  \/ \E v \in Rng(m.whv) : v # "v1"

CfgsOf(p, mut) == SelectSeq(p.cfgs, LAMBDA c : c.mutating = mut)
Duplicate(p) == \E mut \in BOOLEAN : Len(CfgsOf(p, mut)) > 1
Fails(pkgs) == \E p \in Rng(pkgs) : Duplicate(p) \/ \E m \in Rng(p.whs) : Invalid(m)

ByName(a, b) == LexLess(a.name, b.name)
EntriesOf(p, mut) == LET s == StableSortBy(SelectSeq(p.whs, LAMBDA m : m.mutating = mut), ByName)
                     IN [i \in 1..Len(s) |-> Entry(s[i])]
Entries(pkgs, mut) == Concat([i \in 1..Len(pkgs) |-> EntriesOf(pkgs[i], mut)])
(* The last package with a configuration marker of the kind names the object. *)
NameOf(pkgs, mut) ==
  LET named == {i \in 1..Len(pkgs) : CfgsOf(pkgs[i], mut) # <<>>}
      n == IF named = {} THEN "" ELSE CfgsOf(pkgs[CHOOSE i \in named : \A j \in named : j <= i], mut)[1].name
  IN IF n # "" THEN n ELSE IF mut THEN "mutating-webhook-configuration" ELSE "validating-webhook-configuration"
Doc(pkgs, mut) == IF Entries(pkgs, mut) = <<>> THEN <<>>
                  ELSE << [kind |-> IF mut THEN "MutatingWebhookConfiguration" ELSE "ValidatingWebhookConfiguration",
                           api |-> "admissionregistration.k8s.io/v1",
                           name |-> NameOf(pkgs, mut), webhooks |-> Entries(pkgs, mut)] >>
Docs(pkgs) == Doc(pkgs, TRUE) \o Doc(pkgs, FALSE)
=============================================================================
