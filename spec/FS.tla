--------------------------------- MODULE FS ---------------------------------
(***************************************************************************)
(* The file system as bfs sees it: an inode table whose directories map     *)
(* names (byte strings) to inodes, symbolic links, permissions, and the     *)
(* part of path resolution that POSIX fixes.                                *)
(*                                                                         *)
(*   fs.nodes : sequence of inodes                                          *)
(*       [t, dev, ino, inob, nlink, uid, gid, mode, size, blk,              *)
(*        at, mt, ct, bt, kids, tgt, up, xa, acl, cap, prog]                *)
(*     xa: the names of its extended attributes; acl, cap: whether it has a *)
(*     non-trivial access control list, or capabilities; prog: whether it   *)
(*     is a copy of the helper command                                      *)
(*   fs.cwd   : the working directory (an index of fs.nodes)                *)
(*   fs.abs   : sequence of [p, n]: absolute directory names that exist     *)
(*   fs.uid, fs.gid : credentials of the process                            *)
(*                                                                         *)
(* G, the set of directory entries <<dir, name>> removed so far, is the     *)
(* mutable part.                                                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE Bitwise
LOCAL INSTANCE TLC
LOCAL INSTANCE Bytes

Dot == <<46>>
DotDot == <<46, 46>>
MaxLinks == 40

\* Split a path into components; a trailing slash is a final empty component
RECURSIVE SplitFrom(_, _)
SplitFrom(p, i) ==
    IF i > Len(p) THEN <<>>
    ELSE IF p[i] = 47 THEN SplitFrom(p, i + 1)
    ELSE LET j == IndexFrom(p, 47, i) IN
         IF j = 0 THEN << Drop(p, i - 1) >>
         ELSE << SubSeq(p, i, j - 1) >> \o SplitFrom(p, j)
Comps(p) ==
    LET cs == SplitFrom(p, 1) IN
    IF p # <<>> /\ Last(p) = 47 THEN Append(cs, <<>>) ELSE cs

\* Permission class bits of the process on inode n
Perm(fs, n) ==
    LET d == fs.nodes[n] IN
    IF fs.uid = 0 THEN 7
    ELSE IF d.uid = fs.uid THEN (d.mode \div 64) % 8
    ELSE IF d.gid = fs.gid THEN (d.mode \div 8) % 8
    ELSE d.mode % 8
CanRead(fs, n) == Perm(fs, n) \div 4 = 1
CanWrite(fs, n) == (Perm(fs, n) \div 2) % 2 = 1
CanExec(fs, n) == Perm(fs, n) % 2 = 1
\* access(2) for the super-user still needs one execute bit on a non-directory
Access(fs, n, what) ==
    CASE what = "r" -> CanRead(fs, n)
      [] what = "w" -> CanWrite(fs, n)
      [] what = "x" -> IF fs.uid = 0 THEN fs.nodes[n].t = "d" \/ (fs.nodes[n].mode & 73) # 0
                       ELSE CanExec(fs, n)

\* The child of directory d called c, or 0
Child(fs, G, d, c) ==
    LET kids == fs.nodes[d].kids
        m == {i \in 1..Len(kids) : kids[i].n = c}
    IN IF m = {} \/ <<d, c>> \in G THEN 0 ELSE kids[CHOOSE i \in m : TRUE].i

\* Live entries of d: a set of indices into its kids
Live(fs, G, d) == {i \in 1..Len(fs.nodes[d].kids) : <<d, fs.nodes[d].kids[i].n>> \notin G}

OK(n) == [err |-> "", n |-> n]
Err(e) == [err |-> e, n |-> 0]

\* The start of an absolute path: the longest known absolute directory
AbsBase(fs, p) ==
    LET m == {i \in 1..Len(fs.abs) :
                 /\ StartsWith(p, fs.abs[i].p)
                 /\ (Len(p) = Len(fs.abs[i].p) \/ p[Len(fs.abs[i].p) + 1] = 47)}
    IN IF m = {} THEN [n |-> 0, rest |-> <<>>]
       ELSE LET i == CHOOSE i \in m : \A j \in m : Len(fs.abs[j].p) <= Len(fs.abs[i].p)
            IN [n |-> fs.abs[i].n, rest |-> Drop(p, Len(fs.abs[i].p))]

RECURSIVE WalkC(_, _, _, _, _, _)
WalkC(fs, G, d, cs, follow, links) ==
    IF cs = <<>> THEN OK(d)
    ELSE IF fs.nodes[d].t # "d" THEN Err("ENOTDIR")
    ELSE IF cs = << <<>> >> THEN OK(d)      \* a trailing slash only asks for a directory
    ELSE IF ~CanExec(fs, d) THEN Err("EACCES")
    ELSE LET c == Head(cs)
             rest == Tail(cs)
         IN IF c = Dot \/ c = <<>> THEN WalkC(fs, G, d, rest, follow, links)
            ELSE IF c = DotDot THEN
                IF fs.nodes[d].up = 0 THEN Err("EXDEV") ELSE WalkC(fs, G, fs.nodes[d].up, rest, follow, links)
            ELSE LET k == Child(fs, G, d, c) IN
                 IF k = 0 THEN Err("ENOENT")
                 ELSE IF fs.nodes[k].t = "l" /\ (rest # <<>> \/ follow) THEN
                     IF links >= MaxLinks THEN Err("ELOOP")
                     ELSE LET t == fs.nodes[k].tgt IN
                          IF t[1] = 47 THEN
                              LET b == AbsBase(fs, t) IN
                              IF b.n = 0 THEN Err("ENOENT")
                              ELSE WalkC(fs, G, b.n, Comps(b.rest) \o rest, follow, links + 1)
                          ELSE WalkC(fs, G, d, Comps(t) \o rest, follow, links + 1)
                 ELSE WalkC(fs, G, k, rest, follow, links)

\* Resolve path p relative to directory d (the system takes at most 4095 bytes at a time)
Walk(fs, G, d, p, follow) ==
    IF p = <<>> THEN Err("ENOENT")
    ELSE IF Len(p) >= 4096 THEN Err("ENAMETOOLONG")
    ELSE IF p[1] = 47 THEN
        LET b == AbsBase(fs, p) IN
        IF b.n = 0 THEN Err("ENOENT") ELSE WalkC(fs, G, b.n, Comps(b.rest), follow, 0)
    ELSE WalkC(fs, G, d, Comps(p), follow, 0)

Missing(e) == e = "ENOENT" \/ e = "ENOTDIR"

\* stat with a follow policy: "N" (never), "F" (always), "T" (follow, else the link)
Stat(fs, G, d, p, mode) ==
    IF mode = "N" THEN Walk(fs, G, d, p, FALSE)
    ELSE LET r == Walk(fs, G, d, p, TRUE) IN
         IF mode = "T" /\ Missing(r.err) THEN Walk(fs, G, d, p, FALSE) ELSE r

\* Offset of the base name of a path, ignoring trailing slashes
RECURSIVE StripSlashes(_)
StripSlashes(p) == IF p # <<>> /\ Last(p) = 47 THEN StripSlashes(Front(p)) ELSE p
BaseOff(p) == LastIndex(StripSlashes(p), 47)
BaseName(p) == LET q == StripSlashes(p) IN
               IF q = <<>> THEN <<47>> ELSE Drop(q, LastIndex(q, 47))
DirName(p) == LET o == BaseOff(p) IN
              IF o = 0 THEN Dot ELSE IF o = 1 THEN <<47>> ELSE Take(p, o - 1)
=============================================================================
