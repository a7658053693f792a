#!/usr/bin/env python3
# Writes /verif/known_findings.txt from the fix commits in /repo.
import subprocess, os
log = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','--grep=^fix:'], text=True).splitlines()
m = {
'empty table accepts':('C07','a table of size 0 accepted ids: size-1 underflowed'),
'idxtable: iterators no longer':('C14','Iterate and IterateFree read the live map without the lock: concurrent map access, mixed instants'),
'GetAll no longer takes':('C13','GetAll read-locked twice: deadlock when a writer waits between the two'),
'a range claim returns':('C03','a range claim returned and required other ids than start..start+size-1'),
'finding free ids no longer':('C13','finding n free ids enumerated the whole capacity (2^64 steps)'),
'table16, table32: a full':('C07','a range over all ids had capacity 0: end-start+1 wrapped in the id width'),
'table64: the full':('C07','the range 0..2^64-1 had capacity 0'),
'Get returns the external':('C05','Get returned the internal index instead of the caller id'),
'table64: ClaimFree retries':('C02','ClaimFree failed although ids were free, when another caller took the id it had found'),
'capacity of a large':('C07','the capacity of an IPv6 range of 2^64 or more addresses wrapped (0 for a /64)'),
'2^64 apart':('C06','addresses 2^64 apart shared one entry'),
'share one value slot':('C08','all nodes of a 64 bit tree shared one value slot: values overwrote each other'),
'a clone keeps':('C11','a clone had no id length and bit test: operations on it panicked'),
'Get, Children and Parents':('C13','Get, Children and Parents read-locked twice: deadlock with a waiting writer'),
'listings hold':('C14','GetAll and GetByLabel walked the live tree without the lock'),
'iterators no longer walk':('C12','iterators walked the live tree without the lock'),
'Clone holds':('C11','Clone copied the tree without the lock'),
'ClaimFree searches and claims':('C09','ClaimFree searched and claimed under separate locks, and looped for ever or failed on prefixes covering the tree'),
'tree32: ClaimFree':('C09','tree32 ClaimFree searched with the wrong root length: ids outside the capacity'),
'ReleaseByLabel deletes':('C10','ReleaseByLabel selected under one lock and deleted under another: entries changed in between were missed or kept'),
'ClaimRange rejects':('C10','inverted and out of capacity ranges were accepted'),
'ClaimRange holds':('C10','ClaimRange changed the tree without the lock'),
'masked':('C08','id64 masked prefixes longer than 32 bits to 0'),
'Prev no longer':('C09','id64 Prev truncated the id to 32 bits: ClaimFree gave out wrong ids'),
'mask of length 0':('C10','id64 mask of length 0 was not zero: range text decomposed wrongly'),
'Parents returns only':('C08','Parents of a prefix also returned the prefix itself and the entries below it'),
'printing holds':('C14','PrintNodes and PrintValues walked the tree without the lock'),
'listings carry 16 bit':('C05','entries of GetAll and GetByLabel on the 16 bit table carried 32 bit ids, so they never equalled those of Get'),
'equal copies of other values':('C21','deleting one value at a prefix dropped a second copy of a kept value'),
'an inverted range holds':('C07','a table whose end is below its start had a wrapped capacity and reported ids outside the range as free'),
'an inverted or mixed':('C07','an IP table with inverted ends, or ends of different families, reported addresses outside the range as free'),
'an invalid prefix is reported':('C20','adding or removing a prefix longer than the id width to an id set builder panicked instead of being reported'),
'a prefix longer than the ids':('C15','a claim of a prefix longer than the ids of a tree was stored, and every later free claim failed'),
'the id after the last':('C09','Next of the last id was not the zero id: ClaimFree gave out ids inside claimed ranges')}
out = ["# Genuine defects of henderiw/idxtable found with these checks. A 'fixed' line", "# suppresses nothing. There are no open findings."]
used = set()
for l in log:
    h, s = l.split(' ', 1)
    k = [x for x in m if x in s and x not in used]
    assert k, s
    used.add(k[0])
    out.append(f"fixed: property={m[k[0]][0]} {h} {m[k[0]][1]}")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
