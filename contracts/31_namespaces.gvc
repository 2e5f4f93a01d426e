event ASKIN = call Conn.ask(nc, nctx, nm, ninside) nreply, nerr
func Conn.Ask(c, ctx, msg) (reply, err)
  mode abstract
  on ASKIN [forwards] {C10, C09} nc == c && nctx == ctx && same(nm, msg) && iff(ninside, sofar(exists(l, INSIDE, l.oc == c && l.ov == 1)))
  proves [returns] {C10} one(a, ASKIN) && forall(a, ASKIN, same(reply, a.nreply) && err == a.nerr)

# ---- snapshots ----
func Conn.connected(c) r
  mode abstract
  enumerates [all] {C16, C13, C31} pair(result, c.connectedNamespaces)

func NSConn.Rooms(n) r
  mode abstract
  enumerates [all] {C31, C16, C15} pair(result, n.rooms)

func NSConn.Room(n, name) r
  mode nilrecv
  proves [lookup] {C31} imp(n != nil, one(g, R_GET) && forall(g, R_GET, g.mm == n.rooms && g.mk == name && r == g.mv))
  proves [nil] {C31} imp(n == nil, r == nil)
  ensures [own] {C31} imp(r != nil, r.Name == name && r.NSConn == n)

func Conn.Namespace(c, name) r
  proves [lookup] {C31} one(g, NS_GET) && forall(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == name && r == g.mv)
  ensures [own] {C31} imp(r != nil, r.namespace == name && r.Conn == c)

# ---- teardown (C16) ----
define forcedLeave(n, room, ev, local) = with(zero("Message"), Namespace, n.namespace, Room, room, Event, ev, IsForced, true, IsLocal, local)
func NSConn.forceLeaveAll(n, local)
  mode abstract
  each leave: room in n.rooms: count(f, FIRE) == 2 && exists(f, FIRE, f.fm.Event == OnRoomLeave) && exists(f, FIRE, f.fm.Event == OnRoomLeft) && one(d, R_DEL) && before(f, FIRE, f.fm.Event == OnRoomLeave, d, R_DEL, true) && before(d, R_DEL, true, f, FIRE, f.fm.Event == OnRoomLeft) && forall(f, FIRE, f.fns == n && f.fe == n.events && f.fm.Room == room.Name) && forall(d, R_DEL, d.mo == n && d.mk == room.Name)
  on FIRE [events] {C16, C13} fns == n && fe == n.events && (same(fm, forcedLeave(n, fm.Room, OnRoomLeave, local)) || same(fm, forcedLeave(n, fm.Room, OnRoomLeft, local)))
  on R_DEL [own] {C16, C13} mo == n
  proves [every-room] {C16, C13} each("leave", FIRE, R_DEL)

define forcedDisconnect(ns) = with(zero("Message"), Namespace, ns.namespace, Event, OnNamespaceDisconnect, IsForced, true, IsLocal, true)
event DISC_SEND = send Server.disconnect(ch, v)
event CLOSECH = close Conn.closeCh(ch)
define tornDown(c) = exists(k, CASCLOSED, k.oc == c && k.oold == 0 && k.onew == 1 && k.ook)
event NS_LOCK = lock Conn.connectedNamespacesMutex(l)
event NS_UNLOCK = unlock Conn.connectedNamespacesMutex(l)
event R_UNLOCK = unlock NSConn.roomsMutex(l)
event WM_NEW = set Conn.waitingMessages(mo, mv)
event WM_CLEAR = mapclear Conn.waitingMessages(mo, mm)
func Conn.Close(c)
  mode abstract
  each down: ns in c.connectedNamespaces: one(l, LEAVEALL) && one(f, FIRE) && one(d, NS_DEL) && forall(l, LEAVEALL, l.ln == ns && l.llocal) && forall(f, FIRE, f.fns == ns && f.fe == ns.events && same(f.fm, forcedDisconnect(ns))) && forall(d, NS_DEL, d.mo == c && d.mk == ns.namespace) && before(l, LEAVEALL, true, f, FIRE, true)
  each dropped: k, v in c.waitingMessages: one(d, WM_DEL) && forall(d, WM_DEL, d.mo == c && d.mk == k)
  on FIRE [only-winner] {C16} sofar(tornDown(c)) && nolocks(this)
  on NS_LOCK [looked-at-after] {C16} sofar(tornDown(c))
  on LEAVEALL [only-winner-rooms] {C16} sofar(tornDown(c))
  on NS_DEL [only-winner-ns] {C16} sofar(tornDown(c)) && mo == c
  on WM_DEL [only-winner-requests] {C16, C10} sofar(tornDown(c)) && mo == c
  on CLOSECH [only-winner-close] {C16} sofar(tornDown(c)) && ch == c.closeCh
  on NETCLOSE [only-winner-net] {C16} sofar(tornDown(c)) && sofar(exists(n, NETCONN, n.ss == c.socket && n.sn == nn))
  on DISC_SEND [only-winner-server] {C16, C17} sofar(tornDown(c)) && v == c && ch == c.server.disconnect && !isClient(c) && !sync(this)
  on ACKSET [not-ready] {C16} ov == 0 && oc == c && sofar(tornDown(c))
  proves [attempt] {C16} one(k, CASCLOSED)
  proves [namespaces] {C16} imp(tornDown(c) && !c.shouldHandleOnlyNativeMessages, each("down", FIRE, LEAVEALL, NS_DEL))
  proves [requests] {C16} imp(tornDown(c) && !c.shouldHandleOnlyNativeMessages, each("dropped", WM_DEL) || exists(n, WM_NEW, n.mo == c && isfresh(n.mv) && n.mv != nil) || exists(n, WM_CLEAR, n.mo == c))
  on WM_NEW [only-winner-requests-new] {C16, C10} sofar(tornDown(c)) && mo == c && isfresh(mv)
  on WM_CLEAR [only-winner-requests-clear] {C16, C10} sofar(tornDown(c)) && mo == c
  proves [released] {C16, C10, C30} imp(tornDown(c), one(k, CLOSECH) && one(n, NETCLOSE))
  proves [server-told] {C16, C17} imp(tornDown(c) && !isClient(c), one(s, DISC_SEND))
  proves [quiet] {C16} none(w, WRITE) && none(w, RAW)

# ---- connect (C12) ----
define connectMsg(n) = with(zero("Message"), Namespace, n, Event, OnNamespaceConnect, IsLocal, true)
define isConnected(s) = s.fm.Event == OnNamespaceConnected
func Conn.askConnect(c, ctx, namespace) (ns, err)
  mode abstract
  on FIRE [own-handlers] {C12, C07} fe == c.namespaces[namespace] && has(c.namespaces, namespace) && fns.namespace == namespace && fns.Conn == c && fns.events == fe && fm.Namespace == namespace && fm.IsLocal && (fm.Event == OnNamespaceConnect && sofar(none(f, FIRE) && none(a, ASK)) || fm.Event == OnNamespaceConnected && sofar(exists(s, NS_SET, s.mv == fns) && one(f, FIRE)))
  on ASK [after-local] {C12} ac == c && same(am, connectMsg(namespace)) && actx == ctx && sofar(one(f, FIRE, f.ferr == nil) && none(a, ASK))
  on NS_SET [agreed] {C12} mo == c && mk == namespace && !has(mm, mk) && sofar(exists(a, ASK, a.aerr == nil) && exists(f, FIRE, f.fns == mv))
  on NS_SET [not-after-close] {C16} sofar(exists(l, ISCLOSED, l.oc == c && l.ov == 0 && holds(l, "Conn.connectedNamespacesMutex", c)) && followed(u, NS_UNLOCK, true, l, ISCLOSED, l.oc == c && l.ov == 0 && holds(l, "Conn.connectedNamespacesMutex", c)))
  proves [result] {C12} iff(ns != nil, err == nil)
  proves [connected] {C12} imp(err == nil, exists(s, NS_SET, s.mv == ns) || exists(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == namespace && g.mv == ns))
  proves [fires-once] {C12} imp(exists(s, NS_SET, true), one(f, FIRE, isConnected(f))) && imp(none(s, NS_SET), none(f, FIRE, isConnected(f)))
  proves [undeclared] {C12} imp(!has(c.namespaces, namespace), none(f, FIRE) && none(a, ASK) && none(s, NS_SET) && imp(err != nil, err == ErrBadNamespace))
  proves [idempotent] {C12} forall(g, NS_GET, imp(g.mv != nil, ns == g.mv && err == nil && none(s, NS_SET)))
  proves [refused-locally] {C12} forall(f, FIRE, imp(f.fm.Event == OnNamespaceConnect && f.ferr != nil, err == f.ferr && none(a, ASK) && none(s, NS_SET)))
  proves [error] {C12} imp(err != nil, none(s, NS_SET))
  proves [refused] {C12} forall(a, ASK, imp(a.aerr != nil, err == a.aerr && none(s, NS_SET)))
  proves [asked] {C12} imp(err == nil, exists(g, NS_GET, g.mv != nil) || one(a, ASK)) && none(d, NS_DEL) && silent()
  proves [subscribed] {C26, C12} imp(exists(s, NS_SET, true) && usesExchange(c), one(x, X_SUB, x.xx == c.server.StackExchange && x.xc == c && x.xns == namespace)) && imp(none(s, NS_SET), none(x, X_SUB))
  on ASK [gate-closed] {C29} sofar(one(s, PSTART) && none(d, PDONE) && exists(g, GETP, g.ps == c.processes && g.pname == namespace && exists(s, PSTART, s.pp == g.pp)))
  on FIRE [gate-closed-events] {C29} sofar(one(s, PSTART) && none(d, PDONE))
  on NS_SET [gate-closed-set] {C29} sofar(one(s, PSTART) && none(d, PDONE))
  proves [gate-opened] {C29} count(s, PSTART) == count(d, PDONE) && followed(s, PSTART, true, d, PDONE, d.pp == s.pp) && none(w, PWAIT)

func Conn.replyConnect(c, msg)
  mode abstract
  requires msg.Event == OnNamespaceConnect
  on FIRE [own-handlers] {C12, C07} fe == c.namespaces[msg.Namespace] && has(c.namespaces, msg.Namespace) && fns.namespace == msg.Namespace && fns.Conn == c && fns.events == fe && sameExcept(fm, msg, Event) && (fm.Event == msg.Event && sofar(none(f, FIRE)) || fm.Event == OnNamespaceConnected && sofar(exists(s, NS_SET, s.mv == fns) && one(f, FIRE) && answers() == 1))
  on NS_SET [allowed] {C12} mo == c && mk == msg.Namespace && !has(mm, mk) && sofar(exists(f, FIRE, f.fns == mv && f.ferr == nil && f.fm.Event == msg.Event))
  on NS_SET [not-after-close] {C16} sofar(exists(l, ISCLOSED, l.oc == c && l.ov == 0 && holds(l, "Conn.connectedNamespacesMutex", c)) && followed(u, NS_UNLOCK, true, l, ISCLOSED, l.oc == c && l.ov == 0 && holds(l, "Conn.connectedNamespacesMutex", c)))
  on RAW [success] {C12, C08} rc == c && emptyReplyTo(rb, msg.wait) && !rbin && sofar(exists(s, NS_SET, true) || exists(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == msg.Namespace && g.mv != nil))
  on WRITE [refusal] {C12, C08} wc == c && sameExcept(wm, msg, Err) && wm.Err != nil && sofar(none(s, NS_SET)) && (wm.Err == ErrBadNamespace && !has(c.namespaces, msg.Namespace) || sofar(exists(f, FIRE, f.ferr == wm.Err)))
  proves [answered-once] {C12, C08} imp(msg.wait != "" && !msg.isNoOp, answers() == 1 || answers() == 0 && none(s, NS_SET) && exists(l, ISCLOSED, l.oc == c && l.ov > 0))
  proves [ignored] {C12} imp(msg.wait == "" || msg.isNoOp, noEffect())
  proves [refused] {C12} imp(exists(f, FIRE, f.ferr != nil && f.fm.Event == msg.Event && !isConnected(f)), none(s, NS_SET) && one(w, WRITE))
  proves [fires-once] {C12} imp(exists(s, NS_SET, true), one(f, FIRE, isConnected(f) && exists(s, NS_SET, s.mv == f.fns) )) && imp(none(s, NS_SET), count(f, FIRE) <= 1)
  proves [only-this] {C12} none(d, NS_DEL) && count(s, NS_SET) <= 1
  proves [subscribed] {C26, C12} imp(exists(s, NS_SET, true) && usesExchange(c), one(x, X_SUB, x.xx == c.server.StackExchange && x.xc == c && x.xns == msg.Namespace)) && imp(none(s, NS_SET), none(x, X_SUB))

# ---- disconnect (C13) ----
func Conn.askDisconnect(c, ctx, msg) err
  mode abstract
  requires msg.Event == OnNamespaceDisconnect
  on ASK [asks] {C13} ac == c && actx == ctx && same(am, msg) && sofar(none(a, ASK) && exists(g, NS_GET, g.mk == msg.Namespace && g.mv != nil && g.mm == c.connectedNamespaces))
  on LEAVEALL [agreed] {C13} sofar(one(a, ASK, a.aerr == nil) && exists(g, NS_GET, g.mv == ln)) && llocal
  on NS_DEL [agreed-removal] {C13} mo == c && mk == msg.Namespace && sofar(one(a, ASK, a.aerr == nil) && one(l, LEAVEALL))
  on FIRE [event] {C13, C07} sofar(one(d, NS_DEL)) && fe == fns.events && sofar(exists(g, NS_GET, g.mv == fns)) && same(fm, with(msg, IsLocal, true))
  proves [complete] {C13} imp(err == nil, one(a, ASK) && one(l, LEAVEALL) && one(d, NS_DEL) && one(f, FIRE))
  proves [refused] {C13} imp(err != nil, none(l, LEAVEALL) && none(d, NS_DEL) && none(f, FIRE) && none(x, X_UNSUB))
  proves [error] {C13} forall(a, ASK, err == a.aerr) && imp(none(a, ASK), err == ErrBadNamespace)
  proves [unsubscribed] {C26, C13} imp(err == nil && usesExchange(c), one(x, X_UNSUB, x.xx == c.server.StackExchange && x.xc == c && x.xns == msg.Namespace))
  proves [others] {C13} none(s, NS_SET) && silent()

func Conn.replyDisconnect(c, msg)
  mode abstract
  requires msg.Event == OnNamespaceDisconnect
  on FIRE [event] {C13, C07} same(fm, msg) && fe == fns.events && sofar(none(f, FIRE) && exists(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == msg.Namespace && g.mv == fns)) && imp(isClient(c), sofar(one(d, NS_DEL)))
  on LEAVEALL [rooms] {C13} !llocal && sofar(exists(g, NS_GET, g.mv == ln)) && imp(!isClient(c), sofar(one(f, FIRE, f.ferr == nil)))
  on NS_DEL [allowed] {C13} mo == c && mk == msg.Namespace && sofar(one(l, LEAVEALL)) && imp(!isClient(c), sofar(one(f, FIRE, f.ferr == nil)))
  on RAW [success] {C13, C08} rc == c && emptyReplyTo(rb, msg.wait) && !rbin && sofar(one(d, NS_DEL) || exists(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == msg.Namespace && g.mv == nil))
  on WRITE [refusal] {C13, C08} wc == c && sameExcept(wm, msg, Err) && wm.Err != nil && !isClient(c) && sofar(exists(f, FIRE, f.ferr == wm.Err) && none(d, NS_DEL) && none(l, LEAVEALL))
  proves [answered-once] {C13, C08} imp(msg.wait != "" && !msg.isNoOp, answers() == 1)
  proves [ignored] {C13} imp(msg.wait == "" || msg.isNoOp, noEffect())
  proves [refused] {C13} imp(!isClient(c) && exists(f, FIRE, f.ferr != nil), none(d, NS_DEL) && none(l, LEAVEALL) && one(w, WRITE))
  proves [complete] {C13} imp(exists(r, RAW, true) && exists(g, NS_GET, g.mv != nil), one(d, NS_DEL) && one(l, LEAVEALL) && one(f, FIRE))
  proves [unsubscribed] {C26, C13} imp(exists(d, NS_DEL, true) && usesExchange(c), one(x, X_UNSUB, x.xx == c.server.StackExchange && x.xc == c && x.xns == msg.Namespace))
  proves [others] {C13} none(s, NS_SET) && none(a, ASK)

# ---- rooms (C14, C15) ----
define joinMsg(n, room) = with(zero("Message"), Namespace, n.namespace, Room, room, Event, OnRoomJoin, IsLocal, true)
func NSConn.askRoomJoin(n, ctx, name) (room, err)
  mode abstract
  on ASK [asks] {C14} ac == n.Conn && actx == ctx && same(am, joinMsg(n, name)) && sofar(none(a, ASK) && none(f, FIRE))
  on FIRE [event] {C14, C07} fns == n && fe == n.events && sameExcept(fm, joinMsg(n, name), Event) && (fm.Event == OnRoomJoin && sofar(one(a, ASK, a.aerr == nil) && none(f, FIRE)) || fm.Event == OnRoomJoined && sofar(one(s, R_SET) && one(f, FIRE)))
  on R_SET [agreed] {C14} mo == n && mk == name && sofar(one(a, ASK, a.aerr == nil) && one(f, FIRE, f.ferr == nil))
  on R_SET [not-after-close] {C16} sofar(exists(l, ISCLOSED, l.oc == n.Conn && l.ov == 0 && holds(l, "NSConn.roomsMutex", n)) && followed(u, R_UNLOCK, true, l, ISCLOSED, l.oc == n.Conn && l.ov == 0 && holds(l, "NSConn.roomsMutex", n)))
  proves [result] {C14} iff(room != nil, err == nil) && imp(err == nil, exists(s, R_SET, s.mv == room) || exists(g, R_GET, g.mm == n.rooms && g.mk == name && g.mv == room))
  proves [fires-once] {C14} imp(exists(s, R_SET, true), one(f, FIRE, f.fm.Event == OnRoomJoined)) && imp(none(s, R_SET), none(f, FIRE, f.fm.Event == OnRoomJoined))
  proves [refused] {C14} forall(a, ASK, imp(a.aerr != nil, err == a.aerr && none(s, R_SET) && none(f, FIRE))) && imp(exists(f, FIRE, f.fm.Event == OnRoomJoin && f.ferr != nil), none(s, R_SET) && exists(f, FIRE, err == f.ferr && f.fm.Event == OnRoomJoin))
  proves [error] {C14} imp(err != nil, none(s, R_SET))
  proves [already] {C14} forall(g, R_GET, imp(g.mv != nil, room == g.mv && none(a, ASK) && none(f, FIRE) && none(s, R_SET)))
  proves [others] {C14} none(d, R_DEL) && silent()

func NSConn.replyRoomJoin(n, msg)
  mode abstract nilrecv
  requires msg.Event == OnRoomJoin
  on FIRE [event] {C14, C07} fns == n && fe == n.events && sameExcept(fm, msg, Event) && (fm.Event == OnRoomJoin && sofar(none(f, FIRE)) || fm.Event == OnRoomJoined && sofar(one(s, R_SET) && one(f, FIRE)))
  on R_SET [allowed] {C14} mo == n && mk == msg.Room && sofar(one(f, FIRE, f.ferr == nil))
  on R_SET [not-after-close] {C16} sofar(exists(l, ISCLOSED, l.oc == n.Conn && l.ov == 0 && holds(l, "NSConn.roomsMutex", n)) && followed(u, R_UNLOCK, true, l, ISCLOSED, l.oc == n.Conn && l.ov == 0 && holds(l, "NSConn.roomsMutex", n)))
  on RAW [success] {C14, C08} rc == n.Conn && emptyReplyTo(rb, msg.wait) && !rbin && sofar(one(s, R_SET) || exists(g, R_GET, g.mm == n.rooms && g.mk == msg.Room && g.mv != nil))
  on WRITE [refusal] {C14, C08} wc == n.Conn && sameExcept(wm, msg, Err) && wm.Err != nil && sofar(exists(f, FIRE, f.ferr == wm.Err) && none(s, R_SET))
  proves [answered-once] {C14, C08} imp(n != nil && msg.wait != "" && !msg.isNoOp, answers() == 1 || answers() == 0 && none(s, R_SET) && exists(l, ISCLOSED, l.oc == n.Conn && l.ov > 0))
  proves [ignored] {C14} imp(n == nil || msg.wait == "" || msg.isNoOp, noEffect())
  proves [refused] {C14} imp(exists(f, FIRE, f.fm.Event == OnRoomJoin && f.ferr != nil), none(s, R_SET) && one(f, FIRE) && one(w, WRITE))
  proves [fires-once] {C14} imp(exists(s, R_SET, true), one(f, FIRE, f.fm.Event == OnRoomJoined) && one(s, R_SET)) && imp(none(s, R_SET), none(f, FIRE, f.fm.Event == OnRoomJoined))
  proves [others] {C14} none(d, R_DEL) && none(a, ASK)

func NSConn.askRoomLeave(n, ctx, msg) err
  mode abstract nilrecv
  requires msg.Event == OnRoomLeave
  on ASK [asks] {C15} ac == n.Conn && actx == ctx && same(am, msg) && sofar(none(a, ASK) && exists(g, R_GET, g.mm == n.rooms && g.mk == msg.Room && g.mv != nil))
  on FIRE [event] {C15, C07} fns == n && fe == n.events && sameExcept(fm, msg, Event) && (fm.Event == OnRoomLeave && sofar(one(a, ASK, a.aerr == nil) && none(f, FIRE)) || fm.Event == OnRoomLeft && sofar(one(d, R_DEL) && one(f, FIRE)))
  on R_DEL [agreed] {C15} mo == n && mk == msg.Room && sofar(one(a, ASK, a.aerr == nil) && one(f, FIRE, f.ferr == nil))
  proves [complete] {C15} imp(err == nil && n != nil, one(d, R_DEL) && one(f, FIRE, f.fm.Event == OnRoomLeft))
  proves [refused] {C15} imp(err != nil, none(d, R_DEL) && none(f, FIRE, f.fm.Event == OnRoomLeft))
  proves [error] {C15} forall(a, ASK, imp(a.aerr != nil, err == a.aerr)) && imp(exists(f, FIRE, f.fm.Event == OnRoomLeave && f.ferr != nil), err != nil)
  proves [not-joined] {C15} forall(g, R_GET, imp(g.mv == nil, err == ErrBadRoom && none(a, ASK) && none(f, FIRE)))
  proves [others] {C15} none(s, R_SET) && silent()

func NSConn.replyRoomLeave(n, msg)
  mode abstract nilrecv
  requires msg.Event == OnRoomLeave
  on FIRE [event] {C15, C07} fns == n && fe == n.events && sameExcept(fm, msg, Event) && (fm.Event == OnRoomLeave && sofar(none(f, FIRE)) || fm.Event == OnRoomLeft && sofar(one(d, R_DEL) && one(f, FIRE)))
  on R_DEL [allowed] {C15} mo == n && mk == msg.Room && sofar(one(f, FIRE)) && imp(!isClient(n.Conn), sofar(one(f, FIRE, f.ferr == nil)))
  on RAW [success] {C15, C08} rc == n.Conn && emptyReplyTo(rb, msg.wait) && !rbin && sofar(one(d, R_DEL) || exists(g, R_GET, g.mm == n.rooms && g.mk == msg.Room && g.mv == nil))
  on WRITE [refusal] {C15, C08} wc == n.Conn && sameExcept(wm, msg, Err) && wm.Err != nil && !isClient(n.Conn) && sofar(exists(f, FIRE, f.ferr == wm.Err) && none(d, R_DEL))
  proves [answered-once] {C15, C08} imp(n != nil && msg.wait != "" && !msg.isNoOp, answers() == 1)
  proves [ignored] {C15} imp(n == nil || msg.wait == "" || msg.isNoOp, noEffect())
  proves [refused] {C15} imp(exists(f, FIRE, f.fm.Event == OnRoomLeave && f.ferr != nil) && !isClient(n.Conn), none(d, R_DEL) && one(f, FIRE) && one(w, WRITE))
  proves [fires-once] {C15} imp(exists(d, R_DEL, true), one(f, FIRE, f.fm.Event == OnRoomLeft) && one(d, R_DEL)) && imp(none(d, R_DEL), none(f, FIRE, f.fm.Event == OnRoomLeft))
  proves [others] {C15} none(s, R_SET) && none(a, ASK)

event ASKLEAVE = call NSConn.askRoomLeave(qn, qctx, qm) qerr
func NSConn.LeaveAll(n, ctx) err
  mode nilrecv
  each left: room in n.rooms: one(a, ASKLEAVE) && forall(a, ASKLEAVE, a.qn == n && a.qm.Room == room.Name && a.qerr == nil)
  on ASKLEAVE [message] {C15} qn == n && qctx == ctx && sameExcept(qm, with(zero("Message"), Namespace, n.namespace, Event, OnRoomLeave, IsLocal, true), Room)
  proves [every] {C15} imp(err == nil && n != nil, each("left"))
  proves [first-error] {C15} imp(err != nil, last(exists(a, ASKLEAVE, a.qerr == err)))

event ASKDISC = call Conn.askDisconnect(qc, qctx, qm) qerr
func Conn.DisconnectAll(c, ctx) err
  each gone: ns in c.connectedNamespaces: one(a, ASKDISC) && forall(a, ASKDISC, a.qc == c && a.qm.Namespace == ns.namespace && a.qerr == nil)
  on ASKDISC [message] {C13} qc == c && qctx == ctx && sameExcept(qm, with(zero("Message"), Event, OnNamespaceDisconnect, IsLocal, true), Namespace)
  proves [every] {C13} imp(err == nil && !c.shouldHandleOnlyNativeMessages, each("gone"))
  proves [first-error] {C13} imp(err != nil, last(exists(a, ASKDISC, a.qerr == err)))

# ---- methods of namespaces and rooms concern their own namespace and room (C31) ----
event ASKJOIN = call NSConn.askRoomJoin(qn, qctx, qname) qroom, qerr
func NSConn.Emit(n, event, body) ok
  mode nilrecv
  on WRITE [own] {C31, C05} wc == n.Conn && same(wm, with(zero("Message"), Namespace, n.namespace, Event, event, Body, body))
  proves [once] {C31, C05} imp(n != nil, one(w, WRITE) && forall(w, WRITE, ok == w.wok)) && imp(n == nil, !ok)
func NSConn.EmitBinary(n, event, body) ok
  mode nilrecv
  on WRITE [own] {C31, C05} wc == n.Conn && same(wm, with(zero("Message"), Namespace, n.namespace, Event, event, Body, body, SetBinary, true))
  proves [once] {C31, C05} imp(n != nil, one(w, WRITE) && forall(w, WRITE, ok == w.wok)) && imp(n == nil, !ok)
func NSConn.Ask(n, ctx, event, body) (reply, err)
  mode nilrecv
  on ASK [own] {C31, C10} ac == n.Conn && actx == ctx && same(am, with(zero("Message"), Namespace, n.namespace, Event, event, Body, body))
  proves [once] {C31, C10} imp(n != nil, one(w, ASK) && forall(w, ASK, same(reply, w.areply) && err == w.aerr)) && imp(n == nil, err == ErrWrite)
func NSConn.JoinRoom(n, ctx, name) (room, err)
  mode nilrecv
  proves [own] {C31, C14} imp(n != nil, one(j, ASKJOIN) && forall(j, ASKJOIN, j.qn == n && j.qctx == ctx && j.qname == name && room == j.qroom && err == j.qerr)) && imp(n == nil, err != nil && room == nil)
func NSConn.Disconnect(n, ctx) err
  mode nilrecv
  proves [own] {C31, C13} imp(n != nil, one(j, ASKDISC) && forall(j, ASKDISC, j.qc == n.Conn && j.qctx == ctx && sameExcept(j.qm, with(zero("Message"), Namespace, n.namespace, Event, OnNamespaceDisconnect), IsLocal) && err == j.qerr))
func Room.Emit(r, event, body) ok
  on WRITE [own] {C31, C05} wc == r.NSConn.Conn && same(wm, with(zero("Message"), Namespace, r.NSConn.namespace, Room, r.Name, Event, event, Body, body))
  proves [once] {C31, C05} one(w, WRITE) && forall(w, WRITE, ok == w.wok)
func Room.Leave(r, ctx) err
  proves [own] {C31, C15} one(j, ASKLEAVE) && forall(j, ASKLEAVE, j.qn == r.NSConn && j.qctx == ctx && sameExcept(j.qm, with(zero("Message"), Namespace, r.NSConn.namespace, Room, r.Name, Event, OnRoomLeave), IsLocal) && err == j.qerr)
