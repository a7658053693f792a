#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so wording and anchors stay in step)."""
import json
T="pkg/idxtable/table.go"
IT="pkg/idxtable/iterator.go"
R=["pkg/table/table16/table16.go","pkg/table/table32/table32.go","pkg/table/table64/table64.go"]
IP="pkg/iptable/iptable.go"
TR=["pkg/tree/tree16/tree16.go","pkg/tree/tree32/tree32.go","pkg/tree/tree64/tree64.go"]
TC=["pkg/tree/tree.go","pkg/tree/node.go","pkg/tree/tree_manual.go"]
IDS=["pkg/tree/id%d/%s"%(w,f) for w in (16,32,64) for f in ("idset.go","range%d.go"%w,"myuint%d.go"%w,"id%d.go"%w)]
TESTS="The existing tests drive one goroutine through a few fixed scripts and never overlap two calls"
def P(id,title,st,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                     mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(obs),hook_needed=None))
tblstate=("claimed entries","the set of owned ids and their data; everything else in range is free",T)
treestate=("prefix tree","entries keyed by id and prefix length","pkg/tree/tree.go")
lock=("per-table read/write lock held across check and insert",T)
wrap=("range check, then index mapping, then delegation to the index table","pkg/table/table*/table*.go")
iplock=("address parsed and range-checked, mapped to an index, delegated to the index table",IP)
trlock=("per-tree read/write lock around each public operation","pkg/tree/tree*/tree*.go")
props=[
P("C01","Exclusive ownership: an id is never handed to two claimants",
 "At every instant each id of an index table, 16/32/64-bit range table or IP table has at most one owner: however claims by id, next-free claims, range claims, size claims and releases from any number of callers overlap, of the calls that are told they obtained the same id at most one succeeds until that id is released again. The id a next-free or size claim reports is the id that became owned.",
 ["schedules","histories"],"every interleaving of any number of concurrent callers mixing all claim forms and releases, on tables of every width and size, from every fill level",
 TESTS+", so no test can tell an atomic claim from a check-then-act one.",[T,IP]+R,[lock,wrap,iplock],[tblstate],
 ["results of Claim, ClaimDynamic, ClaimFree, ClaimRange, ClaimSize, Release"]),
P("C02","Free allocation: next-free succeeds whenever an id is free, and gives a free one",
 "On index tables, range tables and IP tables, asking for or claiming the next free id returns an id that lies in the configured range and was free at some instant during the call. The call fails only if at some instant during it every id of the range was in use, even when other callers claim and release ids meanwhile.",
 ["schedules","histories","configurations"],"every interleaving of next-free queries and claims with claims and releases, at every fill level including nearly full and full, for every range",
 TESTS+"; spurious exhaustion needs another caller to take the found id between search and claim.",[T,IP]+R,[lock,("search and claim repeated until the found id is won or the table is full","pkg/table/table*/table*.go"),iplock],[tblstate],
 ["results of ClaimDynamic, ClaimFree, FindFree"]),
P("C03","Range and size claims are exact and all-or-nothing",
 "On an index table, claiming or finding a range of n>0 ids at a start either covers exactly the n ids from that start, all of them free at one instant, or fails and changes nothing; claiming or finding n>0 free ids of any position returns exactly n distinct in-range ids that were all free at one instant, or fails and changes nothing. They fail only if at some instant during the call the request could not be satisfied, and no other caller ever sees a bulk claim half done.",
 ["schedules","inputs","histories"],"every interleaving with other callers, every start, size and fill pattern, including requests that reach past the table, overflow the id type, or collide with entries at the first, middle or last id",
 TESTS+", and its range requests hit only a few starts and sizes, never a collision on the last id or a concurrent claim.",[T,IT],[lock,("free-run search over one consistent view before the first insert",T)],[tblstate],
 ["results of ClaimRange, ClaimSize, FindFreeRange, FindFreeSize and reads by other callers"]),
P("C04","The index table is linearizable",
 "Every call on an index table returns, and every concurrent history of claims, dynamic, range and size claims, releases, updates, lookups, free-searches, sizes, listings and iterations has the results of some one-at-a-time execution of the same calls on a plain map from id to data, each taking effect between its call and its return. In particular a lookup returns exactly the data of the latest claim or update of that id, and failed calls change nothing.",
 ["schedules","histories","inputs"],"every interleaving of every mix of public operations by any number of callers, on every table size and fill level",
 TESTS+"; linearizability is a statement about overlapping calls.",[T,IT,"pkg/idxtable/entry.go"],[lock],[tblstate],
 ["every public result of idxtable.Table"]),
P("C05","Range tables are linearizable and speak external ids throughout",
 "Every call on a 16-, 32- or 64-bit range table returns, and every concurrent history of claims, free claims, releases, updates, lookups, free-searches, sizes, listings and label queries has the results of some one-at-a-time execution on a plain map from id to labels, each call taking effect between its call and its return. Every id passed in or reported anywhere (errors aside) is the caller's id inside the configured range, with the full id length, for every range start.",
 ["schedules","histories","configurations"],"every interleaving of every mix of public operations, for ranges anywhere in the id space of each width, including ranges that end at the largest id",
 TESTS+" and check only a handful of ranges and not the ids carried by returned entries.",R+[T,"pkg/table/table.go"],[wrap,lock],[tblstate],
 ["every public result of table.Table"]),
P("C06","The IP table is linearizable and maps addresses one-to-one",
 "Every call on an IP table returns, and every concurrent history of claims, releases, updates, lookups, free-searches, sizes, listings and label queries has the results of some one-at-a-time execution on a plain map from address to route, each call taking effect between its call and its return. Distinct addresses of the range never share an entry, and every reported address lies in the range and is of the range's family, for IPv4 and IPv6 ranges anywhere in the address space.",
 ["schedules","histories","configurations"],"every interleaving of every mix of public operations, for IPv4 and IPv6 ranges of every position and of sizes that fit the table's 64-bit index",
 TESTS+" and use one small IPv4 range.",[IP,T],[iplock,lock],[tblstate],
 ["every public result of iptable.IPTable"]),
P("C07","Ranges and capacities are exact boundaries under any history",
 "Across any concurrent history, an id or address outside the configured range (below start, above end, beyond the id width, beyond 2^length-1 for a tree or with a prefix longer than its ids, malformed text, wrong address family) is never claimed, updated or reported as present: lookups, claims, updates and releases of it fail, and no entry changes because of it. Every id inside the range, both ends included, is usable, so a table holds exactly end-start+1 ids up to 2^64-1 of them (an index table of size n exactly n; none for n=0, nor for a range whose end is below its start or of another address family) and a tree of length l exactly the ids 0..2^l-1.",
 ["inputs","configurations","histories","schedules"],"every boundary and out-of-range argument at any point of any concurrent history, for every configured range including empty, single-id and full-width ones",
 TESTS+" and probe a few out-of-range ids on small mid-space ranges only.",[T,IP]+R+TR,[("range validation on every entry point",T),wrap,iplock,("capacity validation against 2^length-1","pkg/tree/tree*/tree*.go")],[tblstate,treestate],
 ["success or failure of every call with a boundary argument; listings afterwards"]),
P("C08","Prefix trees are linearizable maps from id/length to labels",
 "Every call on a 16-, 32- or 64-bit tree returns, and every concurrent history of claims or updates by id, releases, lookups, children and parent queries, label queries, listings and sizes has the results of some one-at-a-time execution on a plain map from prefix (id and length, the bits past the length zero) to labels, each call taking effect between its call and its return. A claim or update stores exactly its labels at exactly its id and length without disturbing any other entry, a release removes exactly that entry, children are exactly the longer entries inside an id, its parents exactly the shorter entries covering it.",
 ["schedules","histories","inputs"],"every interleaving and every long history of inserts and removals of host-masked ids and prefixes of every length within the tree's capacity, for trees of every width and length",
 TESTS+"; their trees hold a dozen entries, never shrink back through every node-merge case, and never see two calls at once.",TR+TC+["pkg/tree/gtree/gtree.go","pkg/tree/entry.go"],[trlock,("radix tree insert/split and delete/merge","pkg/tree/tree.go")],[treestate],
 ["every public result of gtree.GTree except printing"]),
P("C09","Tree free claims give an uncovered in-capacity id to exactly one caller",
 "A free claim on a 16-, 32- or 64-bit tree returns a full-length id within the tree's capacity that, at one instant during the call, was covered by no entry of any length, and makes it owned in that same instant, so overlapping free claims never receive the same id. It fails only if at some instant during the call every id of the capacity was covered by some entry.",
 ["schedules","histories","configurations"],"every interleaving of free claims with claims, range claims and releases, for trees of every width and length and every pattern of ids and prefixes, including nearly full ones",
 TESTS+", so a search and an insert that are not one atomic step look correct.",TR+IDS,[trlock,("free space computed as the capacity minus every overlapping entry","pkg/tree/id*/idset.go")],[treestate],
 ["results of ClaimFree and later lookups"]),
P("C10","Tree bulk operations are atomic: range claims and release-by-label",
 "A range claim a-b on a tree either adds exactly the minimal set of prefixes covering a through b, all at one instant, or fails and adds nothing, and it fails for malformed, inverted or out-of-capacity ranges. A release by label removes, at one instant, exactly the entries whose labels match at that instant; no other caller ever sees either half done.",
 ["schedules","inputs","histories"],"every interleaving of bulk operations with lookups, listings, claims, updates and releases, every range text and every selector",
 TESTS+"; a reader in the middle of a bulk change never occurs in them.",TR+IDS+["pkg/tree/tree.go"],[trlock],[treestate],
 ["results of ClaimRange and ReleaseByLabel and of listings and lookups by other callers"]),
P("C11","A tree clone is an instantaneous, independent, fully working copy",
 "Cloning a tree yields a tree whose entries are exactly those of the source at one instant during the call. From then on the clone accepts every operation the source does, with the same capacity, and no operation on either ever affects the other, however the two are used concurrently.",
 ["schedules","histories"],"every interleaving of cloning with changes to the source, and every later concurrent history on the source, the clone and clones of the clone",
 "No existing test clones a tree at all.",TR+TC,[("copy of nodes, values and configuration","pkg/tree/tree.go"),trlock],[treestate],
 ["results of Clone and of every operation on source and clone afterwards"]),
P("C12","Iterators and listings show one consistent instant, each entry once",
 "An iterator or listing obtained from a table or tree, however slowly it is drained and whatever other callers change meanwhile, yields exactly the entries that existed at one instant during the call that created it, each exactly once and with the data it had then; free-id iterators likewise yield exactly the ids free at one instant. Index-table, range-table and IP-table results come in ascending id order, and draining never fails or disturbs the table or tree. What a caller received stays as it was: entries it holds keep the id and data they had, and what it does with a listing of its own shows nowhere else.",
 ["schedules","histories"],"every interleaving of iterator creation and draining with claims, updates and releases, including iterators held across long histories",
 TESTS+"; iterators are drained immediately with no change in between.",[T,IT,IP,"pkg/tree/gtree/gtree.go","pkg/tree/tree.go"]+R+TR,[("iterator works on its own snapshot",T),trlock],[tblstate,treestate],
 ["Iterate, IterateFree, GetAll, GetByLabel and their drained contents"]),
P("C13","Every call returns: no deadlock, no unbounded work",
 "However calls from any number of callers overlap and whichever callers pause between calls, inside their own label selector, or while holding an iterator, every call on a table or tree returns within a number of its own steps bounded by the entries held, the size requested, the capacity where free ids are enumerated, and the number of overlapping calls. No set of callers can block each other forever.",
 ["schedules","fault_sequences","configurations"],"every interleaving including a writer queueing between any two lock operations of a reader, every stall point of every caller, and ranges up to the full id width",
 TESTS+"; lock-order and recursive-read-lock deadlocks need two callers at exact points.",[T,IP]+R+TR,[("no lock is taken while the same lock is held","pkg/**"),("free search stops at the first free id",T)],[],
 ["completion of every call"]),
P("C14","No data races between concurrent callers",
 "Whatever public operations, printing included, any number of callers run concurrently on a shared table or tree, including draining iterators they own and reading entries they obtained earlier, no two unsynchronised conflicting accesses to shared memory occur. Hence results never depend on torn or stale memory and the process is never killed for concurrent map access.",
 ["schedules","histories"],"every pair and mix of public operations on a shared table or tree, under every interleaving",
 TESTS+", so even under the race detector they cannot race.",[T,IT,IP]+R+TR+["pkg/tree/tree.go"],[("one lock per table or tree protects all of its state","pkg/**"),("iterators own their data",IT)],[],
 ["happens-before order of every instrumented memory access"]),
P("C15","A faulting caller never corrupts or wedges a table or tree",
 "If a caller's label selector panics, exits its goroutine, stalls or itself reads the table or tree at any point of a label query or release-by-label, or a call is given invalid or nil arguments, or any request is refused, the table or tree is left exactly as if that call had not happened. Every other caller, then and later, keeps getting correct results and is never blocked by it.",
 ["fault_sequences","schedules","inputs"],"every selector call at which a panic, goroutine exit or stall strikes, every invalid argument, in every concurrent history",
 "The existing tests never pass a failing selector and never use a table again after a refused call under concurrency.",[T,IP]+R+TR,[("locks are released by deferred calls","pkg/**"),("changes are made only after every caller-supplied function has returned","pkg/tree/tree*/tree*.go")],[tblstate,treestate],
 ["results of all calls after an injected fault"]),
P("C16","Separate tables and trees never influence each other",
 "Any number of tables and trees of any kinds and widths that live in one process behave as if each were alone: no operation on one changes a result, an entry, the capacity or the progress of another, under any concurrent use.",
 ["schedules","histories","configurations"],"every interleaving of operations on several instances of the same and of different kinds",
 "Each existing test uses one instance at a time.",[T,IP]+R+TR+TC,[("all state is per instance","pkg/**")],[tblstate,treestate],
 ["results of every operation on each instance"]),
P("C17","Conservation under churn: nothing leaks, all capacity comes back",
 "At every quiet moment of any history of claims, updates and releases by any callers, the reported size equals the number of entries present, each present entry is found by lookup and listing, and each other id is free. After everything is released the size is zero and every id of the range can be claimed again, however long the history was, and a history that repeats itself, on the same ids or on tree ids that move on, and releases what it claims leaves no more behind, in entries or in memory, the longer it goes on.",
 ["histories","schedules"],"every claim/update/release history, concurrent or long, of ids and, for trees, prefixes, followed by releasing everything and refilling to capacity",
 TESTS+" and none releases everything and refills.",[T,IP]+R+TR+TC,[("release removes the entry and, in trees, merges nodes","pkg/tree/tree.go"),lock],[tblstate,treestate],
 ["Size, listings, lookups at quiescence; refilling to capacity"]),
P("C18","Label queries return exactly the matching entries",
 "A label query on a range table, IP table or tree returns exactly the entries whose labels satisfied the selector at one instant during the call, with their current ids and labels, for every selector and whatever other callers claim, update or release meanwhile. Entries claimed without labels take part like any other.",
 ["schedules","inputs","histories"],"every interleaving of label queries with claims, updates and releases, over equality, set, negative, everything and nothing selectors",
 TESTS+", and label queries are checked for a few equality selectors only.",[IP]+R+TR,[("selector applied to one consistent view of the entries","pkg/**")],[tblstate,treestate],
 ["results of GetByLabel"]),
P("C19","Range text and id arithmetic agree with integer arithmetic",
 "Parsing a textual id range accepts exactly two decimal ids of the width joined by a hyphen; masking, ordering, overlap, successor and predecessor of ids and the decomposition of a range into prefixes agree with integer arithmetic over the id width.",
 ["inputs"],"every range text, id and prefix length of each width",
 "No test covers the id packages directly; these are pure functions of their inputs.",["pkg/tree/id%d/range%d.go"%(w,w) for w in (16,32,64)]+IDS,[("recursive halving of the range","pkg/tree/id*/range*.go")]),
P("C20","An id set holds exactly what its builder was told, and never changes",
 "An id set builder holds, after any history of added and removed ids, prefixes, ranges and sets, exactly the ids whose last mention was an addition; invalid additions and removals change nothing and are reported, once, by the next set built. A set built from it lists exactly those ids in minimal ascending ranges or prefixes and stays so for ever, whatever is done later with the builder, with the listings it gave out or with sets derived from it, by any number of callers that share the set without a lock. Splitting off a free prefix of a length fails only if no such prefix is in the set; otherwise it returns one that is, and the rest of the set.",
 ["histories","schedules","inputs"],"every history of a builder (serialised by its owner) interleaved with callers that read, split and re-add the sets built so far, over each id width and its ends",
 "No test uses id sets at all.",["pkg/tree/id%d/idset.go"%w for w in (16,32,64)]+["pkg/tree/id%d/range%d.go"%(w,w) for w in (16,32,64)]+IDS,
 [("pending removals are applied before a later addition","pkg/tree/id*/idset.go"),("a set owns its ranges","pkg/tree/id*/idset.go"),("merged ranges are sorted, disjoint and do not touch","pkg/tree/id*/range*.go")],
 [("id set","a sorted list of disjoint ranges","pkg/tree/id*/idset.go"),("id set builder","added ranges, removed ranges not yet applied, errors not yet reported","pkg/tree/id*/idset.go")],
 ["ranges and prefixes a set lists, when read and when read again","errors of Build","prefix and rest of a split","happens-before order of memory accesses"]),
P("C21","The generic prefix tree is an exact multimap, also for overlapping readers",
 "The generic tree, whose owner keeps writers alone, holds after any history of set, add and delete calls exactly the values stored at each prefix: set replaces the one value of a prefix, add appends one more unless an equal value is there and a match was asked for, delete removes exactly the matching values, and each reports the right count. Iterating visits each prefix with values once, with all of its values, and may overlap with other readers; a clone has the same contents and shares nothing with the original, so both go on independently and without locks between them. Values that are added and deleted again and again, at the same prefixes or at other ones, leave no more memory behind the longer it goes on.",
 ["histories","schedules","configurations"],"every history of set, add, delete, clone and iteration over nested and sibling prefixes of each width, with one or several values per prefix, readers overlapping readers and clones diverging under other callers",
 "The tests use the generic tree only through the trees built on it, with one value per prefix.",["pkg/tree/tree.go"]+IDS,
 [("values of a node are numbered without gaps","pkg/tree/tree.go"),("merging a node with its only child moves all values","pkg/tree/tree.go"),("a clone copies nodes and values","pkg/tree/tree.go")],
 [("generic tree","values stored at each prefix","pkg/tree/tree.go")],
 ["counts returned by Set, Add and Delete","values met by iterators","happens-before order of memory accesses"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
print(len(props))
