------------------------------ MODULE Settings ------------------------------
(* Settings files. A tree of files, each a sequence of lines: a setting [t: "set", k, v], an
   inclusion [t: "inc", p] with a path relative to the including file's directory, or anything
   else [t: "noise"] (comments, blank lines, lines without '=', broken inclusions), which says
   nothing. Paths are sequences of names. What is already known is kept: appending adds only what
   is missing; an inclusion is appended where it stands, so before the file's own settings; within
   one file a later line replaces an earlier one. Setting a property directly always replaces. *)
EXTENDS Integers, Sequences, FiniteSets
Nothing == [k \in {} |-> 0]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
AddMissing(m, n) == [x \in DOMAIN m \cup DOMAIN n |-> IF x \in DOMAIN m THEN m[x] ELSE n[x]]
Dir(path) == SubSeq(path, 1, Len(path) - 1)
RECURSIVE Walk(_, _)
Walk(dir, rel) ==
  IF rel = <<>> THEN dir
  ELSE IF Head(rel) = "." THEN Walk(dir, Tail(rel))
  ELSE IF Head(rel) = ".." THEN (IF dir = <<>> THEN <<"?">> ELSE Walk(SubSeq(dir, 1, Len(dir) - 1), Tail(rel)))
  ELSE Walk(Append(dir, Head(rel)), Tail(rel))
Find(files, path) == {i \in DOMAIN files : files[i].path = path}
RECURSIVE AppendFile(_, _, _), Lines(_, _, _, _, _)
\* known: what the provider knows; own: what this file's lines said so far
AppendFile(files, known, path) ==
  LET f == Find(files, path) IN
  IF f = {} THEN known ELSE Lines(files, known, Nothing, path, files[CHOOSE i \in f : TRUE].lines)
Lines(files, known, own, path, rest) ==
  IF rest = <<>> THEN AddMissing(known, own)
  ELSE LET x == Head(rest) IN
    CASE x.t = "set" -> Lines(files, known, Put(own, x.k, x.v), path, Tail(rest))
      [] x.t = "inc" -> Lines(files, AppendFile(files, known, Walk(Dir(path), x.p)), own, path, Tail(rest))
      [] OTHER -> Lines(files, known, own, path, Tail(rest))
=============================================================================
