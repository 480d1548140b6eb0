---------------------------- MODULE HeaderWrite ----------------------------
(***************************************************************************)
(* Every interface of a response that ends up in its header list, used     *)
(* with arbitrary text.  An interface either stores the text (then a text  *)
(* with a line break must be refused) or encodes it (then the encoded form *)
(* has no line break).  Which of the two is not prescribed; that nothing   *)
(* with a line break is ever emitted is.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Str
EntryPoints == {
    "headers.add", "headers.add_kw", "headers.set", "headers.set_kw", "headers.setitem", "headers.setidx",
    "headers.setslice", "headers.extend_list", "headers.extend_dict", "headers.extend_dict_list", "headers.setdefault",
    "headers.add_header", "ctor.list", "ctor.dict", "ctor.headers", "ctor.content_type", "ctor.mimetype",
    "location", "content_location", "content_type", "mimetype", "mimetype_params", "content_encoding", "content_md5",
    "vary.add", "vary.set", "vary.setstr", "allow.add", "content_language.update", "accept_ranges", "retry_after",
    "set_etag", "cache_control", "cache_control_ext", "www_auth_realm", "www_auth_basic", "www_auth_item",
    "cookie_value", "cookie_path", "cookie_domain", "cookie_key", "delete_cookie_path", "content_range_str",
    "redirect", "bytes_value"}
HasBreak(v) == AnyIn(v, {"\r", "\n"})
\* interfaces that must accept every text of printable characters
InitState(c) == [n |-> 0, unsafe |-> FALSE]
InitRet(c) == Done
Step(s, e) == R([s EXCEPT !.n = @ + 1], Val(IF HasBreak(e.v) THEN "safe" ELSE "accepted"))
Obs(s) == [unsafe |-> s.unsafe]
StateInv(s) == ~s.unsafe
StepInv(s, e, r) == TRUE
=============================================================================
