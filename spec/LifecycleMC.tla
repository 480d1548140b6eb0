---------------------------- MODULE LifecycleMC ----------------------------
EXTENDS Lifecycle
CONSTANT McDepth, McChunks, McMw
McInits == {c \in [mw : 0..McMw, reqcbs : BOOLEAN, respcbs : BOOLEAN, kind : {"stream", "list"}, n : 0..McChunks,
                   fault : 0..McChunks, handler : {"ok", "raise"}, errh : BOOLEAN, errcbs : BOOLEAN,
                   method : {"GET", "HEAD"}, status : {200, 204}] :
              /\ c.fault <= c.n /\ (c.fault > 0 => c.kind = "stream")
              /\ (c.handler = "ok" => ~c.errcbs)
              /\ (c.handler = "raise" => c.n = 1 /\ c.fault = 0 /\ c.kind = "list" /\ c.status = 200 /\ c.respcbs)}
McEvents(s) == IF s.phase = "closed" THEN {} ELSE [op : {"next", "close"}]
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
