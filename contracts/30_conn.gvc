# ---- shared fields of a connection ----
class frozen Conn.socket Conn.namespaces Conn.readiness Conn.acknowledged Conn.connectedNamespaces Conn.processes Conn.isInsideHandler
  Conn.waitingMessages Conn.closed Conn.closeCh Conn.allowNativeMessages Conn.shouldHandleOnlyNativeMessages Conn.server Conn.serverConnID
  Conn.readTimeout Conn.writeTimeout Conn.id Conn.ReconnectTries
class frozen NSConn.Conn NSConn.namespace NSConn.events NSConn.rooms Room.NSConn Room.Name
nonnil Conn.socket Conn.readiness Conn.acknowledged Conn.connectedNamespaces Conn.processes Conn.isInsideHandler Conn.waitingMessages Conn.closed Conn.closeCh
nonnil NSConn.Conn NSConn.rooms Room.NSConn
writer Conn.id Conn.handleACK
writer Conn.waitingMessages Conn.Close
closer Conn.closeCh Conn.Close
guard Conn.store by Conn.storeMutex
guard Conn.connectedNamespaces by Conn.connectedNamespacesMutex map
guard Conn.waitingMessages by Conn.waitingMessagesMutex map
guard Conn.queue by Conn.queueMutex
guard NSConn.rooms by NSConn.roomsMutex map
about C18 C06: Conn.id Conn.serverConnID Conn.server
about C12 C13 C31 C07: Conn.connectedNamespaces NSConn.namespace NSConn.Conn NSConn.events
about C14 C15 C31: NSConn.rooms Room.Name Room.NSConn
about C16: Conn.closeCh
about C21: Conn.store
about C19: Conn.queue
about C29: processes.entries
about C04: Conn.allowNativeMessages Conn.shouldHandleOnlyNativeMessages
about C28 C24: Conn.readTimeout Conn.writeTimeout
about C09 C10: Conn.waitingMessages
class frozen Server.uuid Server.upgrader Server.IDGenerator Server.StackExchange Server.SyncBroadcaster Server.FireDisconnectAlways Server.namespaces
  Server.readTimeout Server.writeTimeout Server.connections Server.connect Server.disconnect Server.actions Server.broadcastMessages Server.broadcaster
  Server.waitingMessages Server.OnUpgradeError Server.OnConnect Server.OnDisconnect
assumption the exported fields of a server are set before it serves connections
nonnil Server.upgrader Server.IDGenerator Server.connections Server.connect Server.disconnect Server.actions Server.broadcastMessages Server.broadcaster Server.waitingMessages
writer Server.StackExchange Server.UseStackExchange
guard Server.waitingMessages by Server.waitingMessagesMutex map
confined Server.connections Server.start New Server.GetConnections Server.GetConnectionsByNamespace
mapwriter Server.connections Server.start
mapinv Server.connections(s, k, v): k != nil
mapinv Server.waitingMessages(s, k, v): v != nil
chaninv Server.connect(s, v): v != nil
chaninv Server.disconnect(s, v): v != nil
chaninv Server.actions(s, v): v.call != nil
about C17 C31 C06: Server.connections
about C09 C27: Server.waitingMessages
about C18 C26: Server.StackExchange Server.OnConnect
mapinv Conn.connectedNamespaces(c, k, v): v != nil && v.Conn == c && v.namespace == k && v.events == c.namespaces[k]
mapinv NSConn.rooms(n, k, v): v != nil && v.Name == k && v.NSConn == n
mapinv Conn.waitingMessages(c, k, v): v != nil
mapinv type:Events(e, k, v): v != nil
ownentries Conn.connectedNamespaces NSConn.rooms Conn.waitingMessages Server.waitingMessages
assumption registered event handlers are not nil, and the registered namespaces are not changed while connections use them
assumption Socket.NetConn is not nil
nonnilres Socket.NetConn
atominv Conn.closed(c, v): v == 0 || v == 1
atominv Conn.acknowledged(c, v): v == 0 || v == 1

event FIRE = call Events.fireEvent(fe, fns, fm) ferr
event HANDLE = dyn MessageHandlerFunc(hf, hns, hm) herr
event WRITE = call Conn.Write(wc, wm) wok
event RAW = call Conn.write(rc, rb, rbin) rok
event ASK = call Conn.Ask(ac, actx, am) areply, aerr
event CONNCLOSE = call Conn.Close(kc)
event LEAVEALL = call NSConn.forceLeaveAll(ln, llocal)
event SERIALIZE = call serializeMessage(sm) sout
event DESERIALIZE = call DeserializeMessage(dtyp, db, dan, donly) dm
event PAYLOAD = call Conn.HandlePayload(pc, ptyp, pb) perr
event HANDLEMSG = call Conn.handleMessage(gc, gm) gerr
event GENWAIT = call genWait(gclient) gw
event UNWAIT = call waiterOnce.unwait(uw, uerr)
event READYWAIT = call waiterOnce.wait(uw) uerr
event GETP = call processes.get(ps, pname) pp
event PSTART = call process.Start(pp)
event PDONE = call process.Done(pp)
event PWAIT = call process.Wait(pp)
event SOCKTEXT = icall Socket.WriteText(ss, sb, st) serr
event SOCKBIN = icall Socket.WriteBinary(ss, sb, st) serr
event SOCKREAD = icall Socket.ReadData(ss, st) sb, styp, serr
event NETCONN = icall Socket.NetConn(ss) sn
event NETCLOSE = icall net.Conn.Close(nn) nerr
event ISCLOSED = load Conn.closed(oc) ov
event CASCLOSED = cas Conn.closed(oc, oold, onew) ook
event SETCLOSED = store Conn.closed(oc, ov)
event ACKSET = store Conn.acknowledged(oc, ov)
event ACKGET = load Conn.acknowledged(oc) ov
event INSIDE = load Conn.isInsideHandler(oc) ov
event NS_GET = mapget Conn.connectedNamespaces(mm, mk) mv
event NS_SET = mapset Conn.connectedNamespaces(mo, mk, mv, mm)
event NS_DEL = mapdel Conn.connectedNamespaces(mo, mk, mm)
event R_GET = mapget NSConn.rooms(mm, mk) mv
event R_SET = mapset NSConn.rooms(mo, mk, mv, mm)
event R_DEL = mapdel NSConn.rooms(mo, mk, mm)
event WM_GET = mapget Conn.waitingMessages(mm, mk) mv
event WM_SET = mapset Conn.waitingMessages(mo, mk, mv, mm)
event WM_DEL = mapdel Conn.waitingMessages(mo, mk, mm)
event SWM_GET = mapget Server.waitingMessages(mm, mk) mv
event SWM_SET = mapset Server.waitingMessages(mo, mk, mv, mm)
event SWM_DEL = mapdel Server.waitingMessages(mo, mk, mm)
event ST_SET = mapset Conn.store(mo, mk, mv, mm)
event ST_DEL = mapdel Conn.store(mo, mk, mm)
event ST_GET = mapget Conn.store(mm, mk) mv
event X_SUB = icall StackExchange.Subscribe(xx, xc, xns)
event X_UNSUB = icall StackExchange.Unsubscribe(xx, xc, xns)
event X_NOTIFY = icall StackExchange.NotifyAsk(xx, xm, xtok) xerr
event X_CONNECT = icall StackExchange.OnConnect(xx, xc) xerr
event X_DISCONNECT = icall StackExchange.OnDisconnect(xx, xc)
event X_PUBLISH = icall StackExchange.Publish(xx, xmsgs) xok
event X_ASK = icall StackExchange.Ask(xx, xctx, xm, xtok) xreply, xerr
event SETID = set Conn.id(co, cv)
traced Conn.id Conn.queue Conn.waitingMessages
event SETQ = set Conn.queue(co, cv)
event SLEEP = ext time.Sleep(td)

define isClient(c) = c.server == nil
define noEffect() = none(nx1, FIRE) && none(nx2, WRITE) && none(nx3, RAW) && none(nx4, NS_SET) && none(nx5, NS_DEL) && none(nx6, R_SET) && none(nx7, R_DEL) && none(nx8, WM_SET) && none(nx9, WM_DEL) && none(ny1, ASK) && none(ny2, SEND) && none(ny3, X_NOTIFY) && none(ny4, ACKSET) && none(ny5, UNWAIT) && none(ny6, SETID) && none(ny7, CONNCLOSE) && none(ny8, LEAVEALL) && none(ny9, HANDLE)
define emptyReplyTo(b, w) = str(b) == w + ";;;;;;"
define silent() = none(nz1, WRITE) && none(nz2, RAW)
define firedWith(ev) = exists(fx, FIRE, fx.fm.Event == ev)
define answers() = count(cz1, WRITE) + count(cz2, RAW)
define usesExchange(c) = c.server != nil && c.server.StackExchange != nil

# ---- handlers (C07) ----
func Events.fireEvent(e, ns, msg) err
  mode abstract nilrecv
  on HANDLE [args] {C07} hns == ns && same(hm, msg)
  proves [exact] {C07} imp(has(e, msg.Event), one(h, HANDLE) && exists(h, HANDLE, h.hf == e[msg.Event]))
  proves [any] {C07} imp(!has(e, msg.Event) && has(e, OnAnyEvent), one(h, HANDLE) && exists(h, HANDLE, h.hf == e[OnAnyEvent]))
  proves [none] {C07} imp(!has(e, msg.Event) && !has(e, OnAnyEvent), none(h, HANDLE) && err == nil)
  proves [result] {C07, C08} forall(h, HANDLE, err == h.herr)

# ---- writing (C05) ----
# every frame goes through Conn.write, and every message but the handshake and the answers through Conn.Write
caller Socket.WriteText Conn.write
caller Socket.WriteBinary Conn.write
caller Conn.write Conn.Write Conn.handleACK Conn.sendClientACK Conn.replyConnect Conn.replyDisconnect NSConn.replyRoomJoin NSConn.replyRoomLeave Conn.handleMessage
about C05 C16: Socket.WriteText Socket.WriteBinary Conn.write
assumption an error never wraps a nil *net.OpError
func IsCloseError(err) r
  mode abstract nosafe
  ensures [nil] {C16} imp(err == nil, !r)
  ensures [manual] {C16} imp(typeis(err, "CloseError"), r)

func Conn.write(c, b, binary) ok
  mode abstract
  on SOCKTEXT [frame] {C05, C28} !binary && ss == c.socket && str(sb) == str(b) && st == c.writeTimeout
  on SOCKBIN [frame-binary] {C05, C28} binary && ss == c.socket && str(sb) == str(b) && st == c.writeTimeout
  proves [one-frame] {C05, C06} count(w, SOCKTEXT) + count(w, SOCKBIN) == 1
  proves [report] {C05, C10} iff(ok, exists(w, SOCKTEXT, w.serr == nil) || exists(w, SOCKBIN, w.serr == nil))
  on CONNCLOSE [only-on-failure] {C16} kc == c && sofar(exists(w, SOCKTEXT, w.serr != nil) || exists(w, SOCKBIN, w.serr != nil))

define isConnectMsg(m) = m.Event == OnNamespaceConnect
define isDisconnectMsg(m) = m.Event == OnNamespaceDisconnect
define excludedHere(c, m) = m.FromExplicit != "" && m.FromExplicit == ite(isClient(c), c.id, c.serverConnID)
define nsOpen(c, m) = exists(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == m.Namespace && g.mv != nil)
define roomOpen(c, m) = exists(q, R_GET, q.mk == m.Room && q.mv != nil && exists(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == m.Namespace && q.mm == g.mv.rooms))
define needsNs(m) = !isConnectMsg(m) && !isDisconnectMsg(m)
define needsRoom(m) = needsNs(m) && m.Room != "" && m.Event != OnRoomJoin && m.Event != OnRoomLeft

func Conn.Write(c, msg) ok
  mode abstract
  on RAW [open] {C05, C16} rc == c && sofar(exists(l, ISCLOSED, l.oc == c && l.ov == 0))
  on RAW [namespace] {C05} imp(needsNs(msg), sofar(nsOpen(c, msg)))
  on RAW [room] {C05} imp(needsRoom(msg), sofar(roomOpen(c, msg)))
  on RAW [not-excluded] {C05, C06} !excludedHere(c, msg)
  on RAW [content] {C05, C01, C08, C27} rbin == msg.SetBinary && sofar(exists(s, SERIALIZE, same(s.sm, with(msg, FromExplicit, "")) && str(s.sout) == str(rb)))
  proves [once] {C05, C06} count(r, RAW) <= 1
  proves [report] {C05, C10} iff(ok, exists(r, RAW, r.rok))
  proves [passes] {C05, C06} imp(none(r, RAW), exists(l, ISCLOSED, l.ov == 1) || needsNs(msg) && exists(g, NS_GET, g.mk == msg.Namespace && g.mv == nil) || needsRoom(msg) && exists(q, R_GET, q.mk == msg.Room && q.mv == nil) || excludedHere(c, msg))
  on UNWAIT [accepts] {C18} !isClient(c) && uerr == nil && uw == c.readiness
  proves [nothing-else] {C05} none(f, FIRE) && none(s, NS_SET) && none(s, R_SET) && none(d, NS_DEL) && none(d, R_DEL) && none(d, WM_SET)

func Conn.Is(c, id) r
  ensures [is] {C06, C05} r == (id != "" && id == ite(isClient(c), c.id, c.serverConnID))

# ---- store (C21) ----
func Conn.Set(c, key, value)
  on ST_SET [this] {C21} mo == c && mk == key && mv == value && holds(this, "Conn.storeMutex", c)
  proves [once] {C21} one(s, ST_SET) && none(d, ST_DEL)

func Conn.Get(c, key) v
  proves [value] {C21} forall(g, ST_GET, g.mk == key && v == g.mv)
  proves [absent] {C21} imp(none(g, ST_GET), v == nil) && count(g, ST_GET) <= 1
  proves [read-only] {C21} none(s, ST_SET) && none(d, ST_DEL)

define counted(m, k, n) = ite(has(m, k) && typeis(m[k], "int"), unbox(m[k], "int"), 0) + n
func Conn.Increment(c, key) r
  on ST_SET [step] {C21} mo == c && mk == key && holds(this, "Conn.storeMutex", c) && typeis(mv, "int") && unbox(mv, "int") == at(this, counted(mm, key, 1)) && sofar(forall(g, ST_GET, g.mm == mm))
  proves [returns] {C21} one(s, ST_SET) && exists(s, ST_SET, unbox(s.mv, "int") == r) && none(d, ST_DEL)

func Conn.Decrement(c, key) r
  on ST_SET [step] {C21} mo == c && mk == key && holds(this, "Conn.storeMutex", c) && typeis(mv, "int") && unbox(mv, "int") == at(this, counted(mm, key, 0 - 1))
  proves [returns] {C21} one(s, ST_SET) && exists(s, ST_SET, unbox(s.mv, "int") == r) && none(d, ST_DEL)

# ---- requests (C09, C10, C11) ----
event MADE = makechan _(ch, size)
assumption time.Time values are points on one line: Add, Sub, Before and After are its arithmetic (no wrap-around, wall and monotonic readings agree)
event CTX_ERR = icall context.Context.Err(xctx) xerr
event RECV_CTX = recv ctx.Done(ch) v
event RECV_CLOSED = recv Conn.closeCh(ch) v
event RECV_LOCAL = recv local(ch) v
event SEND_LOCAL = send local(ch, v)
pure context.Context.Done context.Context.Deadline
nonnil context.DeadlineExceeded
func Conn.ask(c, ctx, msg, inside) (reply, err)
  mode abstract
  async SEND_LOCAL
  on GENWAIT [side] {C11, C09} gclient == isClient(c)
  on WRITE [token] {C10, C11} wc == c && sameExcept(wm, msg, wait) && sofar(exists(g, GENWAIT, g.gw == wm.wait)) && sofar(none(w, WRITE))
  on WRITE [registered-first] {C10} imp(!inside, sofar(exists(s, WM_SET, s.mo == c && s.mk == wm.wait && isfresh(s.mv))))
  on WM_SET [own-token] {C10, C09} mo == c && sofar(exists(g, GENWAIT, g.gw == mk)) && !inside && isfresh(mv)
  on WM_DEL [own] {C10, C09} mo == c && sofar(exists(s, WM_SET, s.mk == mk))
  proves [unregistered] {C10} followed(s, WM_SET, true, d, WM_DEL, d.mo == s.mo && d.mk == s.mk)
  on RECV_LOCAL [reply-own] {C09, C10} imp(!inside, sofar(exists(s, WM_SET, s.mv == ch)))
  on SEND_LOCAL [reply-own-in-handler] {C09} !inside
  proves [reply] {C10, C09} imp(err == nil, c.shouldHandleOnlyNativeMessages || one(r, RECV_LOCAL, same(reply, r.v)))
  proves [reply-error] {C10} forall(r, RECV_LOCAL, same(reply, r.v) && err == r.v.Err)
  proves [listens] {C10} imp(exists(w, WRITE, w.wok), exists(x, WAIT, waits(x, c.closeCh) && imp(ctx != nil, waits(x, pure("context.Context.Done", ctx))) && exists(m, MADE, waits(x, m.ch))))
  proves [refused] {C10} forall(w, WRITE, imp(!w.wok, err == ErrWrite && none(x, WAIT, sync(x))))
  proves [closed] {C10} imp(exists(r, RECV_CLOSED, true) && none(r, RECV_LOCAL), err == ErrWrite)
  proves [in-time] {C10} imp(none(w, WRITE), c.shouldHandleOnlyNativeMessages || exists(l, ISCLOSED, l.oc == c && l.ov > 0) || exists(e, CTX_ERR, e.xctx == ctx && e.xerr != nil) || exists(n, NOW, imp(ctx != nil, instant(pure("context.Context.Deadline", ctx)) < instant(n.nw))))
  proves [context] {C10} imp(exists(r, RECV_CTX, true), err != nil)
  proves [buffered] {C09} forall(m, MADE, m.size == 1)
  proves [waits-once-sent] {C10} before(w, WRITE, w.wok, x, WAIT, sync(x))
