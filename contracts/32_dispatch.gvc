# ---- construction of a connection ----
define nativeEvents(nss) = has(nss, "") && has(nss[""], OnNativeMessage) && nss[""][OnNativeMessage] != nil
define nativeOnly(nss) = nativeEvents(nss) && len(nss) == 1 && len(nss[""]) == 1
func newConn(socket, namespaces) c
  requires socket != nil
  ensures [own] {C18, C12} isfresh(c) && c.socket == socket && c.namespaces == namespaces && c.server == nil && c.id == "" && c.serverConnID == ""
  ensures [native] {C04} c.allowNativeMessages == nativeEvents(namespaces)
  ensures [only-native] {C04} c.shouldHandleOnlyNativeMessages == nativeOnly(namespaces)
  on ACKSET [native-only] {C18, C19} ov == 1 && nativeOnly(namespaces)
  on UNWAIT [native-only-ready] {C18} uerr == nil && nativeOnly(namespaces)
  on NS_SET [native-only-namespace] {C12, C04} nativeOnly(namespaces) && mk == "" && mv.events == namespaces[""]
  proves [native-ready] {C04} imp(nativeOnly(namespaces), one(a, ACKSET) && one(s, NS_SET) && one(u, UNWAIT))

# ---- reading and the handshake (C18, C19) ----
event POLL = wait poll(a, b)
event B_SELECT = wait select(a, b)
event B_PLAINSEND = wait send(a)
event B_PLAINRECV = wait recv(a)
define neverBlocks() = none(bz1, B_SELECT, sync(bz1)) && none(bz2, B_PLAINSEND, sync(bz2)) && none(bz3, B_PLAINRECV, sync(bz3))
event HANDLEACK = call Conn.handleACK(hc, htyp, hb) hok
event HANDLEQ = call Conn.handleQueue(qc)
event INSIDESET = store Conn.isInsideHandler(oc, ov)
event GETQ = get Conn.queue(co) cv
event DIALACK = call Conn.sendClientACK(dc) derr

func Conn.startReader(c)
  mode abstract
  on PAYLOAD [after-handshake] {C19, C18} pc == c && last(sofar(one(a, ACKGET, a.oc == c && a.ov > 0) && none(h, HANDLEACK)))
  on PAYLOAD [as-read] {C19, C03, C04} last(sofar(one(r, SOCKREAD, r.ss == c.socket && r.st == c.readTimeout && r.serr == nil && str(r.sb) == str(pb) && r.styp == ptyp)))
  on PAYLOAD [inside] {C09} last(sofar(one(s, INSIDESET) && exists(s, INSIDESET, s.oc == c && s.ov == 1)))
  on HANDLEACK [as-read-early] {C19, C18} hc == c && last(sofar(one(r, SOCKREAD, r.ss == c.socket && r.serr == nil && str(r.sb) == str(hb) && r.styp == htyp) && one(a, ACKGET, a.oc == c && a.ov == 0) && none(p, PAYLOAD)))
  turn [handled] {C19, C07} one(r, SOCKREAD) && forall(r, SOCKREAD, imp(len(r.sb) > 0, count(p, PAYLOAD) + count(h, HANDLEACK) == 1) && imp(len(r.sb) == 0, none(p, PAYLOAD) && none(h, HANDLEACK)))
  turn [continues] {C19, C16} forall(r, SOCKREAD, r.serr == nil) && forall(h, HANDLEACK, h.hok)
  turn [inside-reset] {C09} imp(exists(p, PAYLOAD, true), count(s, INSIDESET) == 2 && exists(s, INSIDESET, s.ov == 0) && before(p, PAYLOAD, true, s, INSIDESET, s.ov == 0))
  proves [ends] {C16, C03} exists(l, ISCLOSED, l.ov == 1) || last(exists(r, SOCKREAD, r.serr != nil) || exists(h, HANDLEACK, !h.hok))
  on UNWAIT [dead-before-ready] {C18, C20} uw == c.readiness && uerr != nil && last(sofar(exists(r, SOCKREAD, r.serr == uerr)))
  on CONNCLOSE [closes] {C16} kc == c
  proves [closes-at-end] {C16, C18} one(k, CONNCLOSE) || exists(l, ISCLOSED, l.ov == 1)
  proves [quiet] {C05, C18} silent() && none(f, FIRE) && none(a, ACKSET) && none(s, SETID)

func Conn.handleACK(c, typ, b) ok
  mode abstract
  requires len(b) > 0
  on SETID [client-only] {C18} isClient(c) && co == c && hasprefix(str(b), "A") && "A" + cv == str(b)
  on ACKSET [accepted] {C18, C19} oc == c && ov == 1 && ite(isClient(c), hasprefix(str(b), "A") && sofar(one(s, SETID)), hasprefix(str(b), "M") && sofar(one(w, READYWAIT, w.uw == c.readiness && w.uerr == nil) && one(r, RAW, r.rok)))
  on UNWAIT [client-only-verdict] {C18, C20} isClient(c) && uw == c.readiness && (uerr == nil && hasprefix(str(b), "A") && sofar(one(s, SETID) && one(a, ACKSET)) || uerr != nil && "H" + errtext(uerr) == str(b))
  on RAW [answer] {C18} rc == c && !rbin && !isClient(c) && hasprefix(str(b), "M") && sofar(none(r, RAW)) && sofar(one(w, READYWAIT, w.uw == c.readiness && ite(w.uerr == nil, str(rb) == "A" + c.id, str(rb) == "H" + errtext(w.uerr))))
  on HANDLEQ [after] {C19} qc == c && sofar(one(a, ACKSET))
  on READYWAIT [server-only] {C18} !isClient(c) && hasprefix(str(b), "M")
  on SETQ [kept] {C19} co == c && extends(cv, at(this, c.queue)) && cv[len(at(this, c.queue))].msgTyp == typ && str(cv[len(at(this, c.queue))].b) == str(b) && holds(this, "Conn.queueMutex", c)
  proves [server] {C18} imp(!isClient(c) && hasprefix(str(b), "M"), one(w, READYWAIT) && one(r, RAW) && none(s, SETQ))
  proves [server-verdict] {C18, C19} imp(!isClient(c) && hasprefix(str(b), "M"), iff(ok, exists(w, READYWAIT, w.uerr == nil) && exists(r, RAW, r.rok)) && imp(ok, one(a, ACKSET) && one(q, HANDLEQ)) && imp(!ok, none(a, ACKSET) && none(q, HANDLEQ)))
  proves [client] {C18} imp(isClient(c) && hasprefix(str(b), "A"), ok && one(s, SETID) && one(a, ACKSET) && one(u, UNWAIT) && none(q, SETQ))
  proves [client-queue] {C19} imp(isClient(c) && hasprefix(str(b), "A"), one(q, HANDLEQ)) && imp(isClient(c) && hasprefix(str(b), "H"), none(q, HANDLEQ))
  proves [client-refused] {C18} imp(isClient(c) && hasprefix(str(b), "H"), !ok && one(u, UNWAIT) && none(a, ACKSET) && none(q, SETQ))
  proves [other] {C19} imp(!(isClient(c) && (hasprefix(str(b), "A") || hasprefix(str(b), "H"))) && !(!isClient(c) && hasprefix(str(b), "M")), ok && one(q, SETQ) && silent() && none(a, ACKSET) && none(u, UNWAIT) && none(s, SETID) && none(p, HANDLEQ))
  proves [no-event] {C19} none(f, FIRE) && none(p, PAYLOAD)

func Conn.handleQueue(c)
  mode abstract
  each handled: p in only(g, GETQ, g.cv): one(h, PAYLOAD) && forall(h, PAYLOAD, h.pc == c && h.ptyp == p.msgTyp && str(h.pb) == str(p.b))
  on SETQ [taken] {C19} co == c && len(cv) == 0 && holds(this, "Conn.queueMutex", c) && sofar(one(g, GETQ, g.co == c))
  proves [taken-once] {C19} one(s, SETQ) && one(g, GETQ)
  proves [in-order] {C19} each("handled", PAYLOAD)
  on PAYLOAD [inside] {C09} first(sofar(exists(s, INSIDESET, s.oc == c && s.ov == 1))) && nolocks(this)
  proves [inside-reset] {C09} exists(s, INSIDESET, s.oc == c && s.ov == 0)
  proves [quiet] {C18, C19} silent() && none(a, ACKSET) && none(f, FIRE)

func Conn.sendClientACK(c) err
  mode abstract
  on RAW [hello] {C18} rc == c && str(rb) == "M" && !rbin && !c.shouldHandleOnlyNativeMessages && sofar(none(r, RAW))
  on READYWAIT [verdict] {C18} uw == c.readiness && sofar(exists(r, RAW, r.rok))
  proves [success] {C18} imp(err == nil, c.shouldHandleOnlyNativeMessages || exists(w, READYWAIT, w.uerr == nil))
  proves [refused] {C18} forall(w, READYWAIT, err == w.uerr) && forall(r, RAW, imp(!r.rok, err == ErrWrite))
  proves [closed] {C18, C16} imp(err != nil, one(k, CONNCLOSE, k.kc == c)) && imp(err == nil, none(k, CONNCLOSE))

func Conn.refuse(c, err)
  mode abstract
  requires err != nil
  on UNWAIT [verdict] {C18, C20} uw == c.readiness && uerr == err
  proves [told] {C18} one(u, UNWAIT)
  proves [native-closed] {C18} imp(c.shouldHandleOnlyNativeMessages, one(k, CONNCLOSE, k.kc == c))
  proves [quiet] {C18} silent()

# ---- incoming messages (C03, C04, C07, C08, C09, C29) ----
func Conn.HandlePayload(c, typ, payload) err
  mode abstract
  on DESERIALIZE [settings] {C04, C03} dtyp == typ && str(db) == str(payload) && dan == c.allowNativeMessages && donly == c.shouldHandleOnlyNativeMessages
  on HANDLEMSG [decoded] {C03, C04, C07, C01} gc == c && sofar(exists(d, DESERIALIZE, same(d.dm, gm)))
  proves [once] {C07, C03, C19} one(d, DESERIALIZE) && one(h, HANDLEMSG) && forall(h, HANDLEMSG, err == h.gerr)

event REPLYCONNECT = call Conn.replyConnect(yc, ym)
event REPLYDISC = call Conn.replyDisconnect(yc, ym)
event REPLYJOIN = call NSConn.replyRoomJoin(yn, ym)
event REPLYLEAVE = call NSConn.replyRoomLeave(yn, ym)
define ownToken(c, m) = m.wait != "" && iff(hasprefix(m.wait, "$"), isClient(c))
define isNativeIn(c, m) = m.IsNative && c.shouldHandleOnlyNativeMessages
define isAnswer(c, m) = exists(g, WM_GET, g.mv != nil) || exists(g, SWM_GET, g.mv != nil) || exists(n, X_NOTIFY, true)
define isDropped(c, m) = ownToken(c, m) && none(f, FIRE) && none(y, REPLYCONNECT) && none(y, REPLYDISC) && none(y, REPLYJOIN) && none(y, REPLYLEAVE) && none(p, PWAIT)
define noDispatch() = none(f, FIRE) && none(y, REPLYCONNECT) && none(y, REPLYDISC) && none(y, REPLYJOIN) && none(y, REPLYLEAVE)
define goesOn(c, m) = !m.isInvalid && !isNativeIn(c, m) && !isAnswer(c, m) && !ownToken(c, m)
define judgedIn(c, m) = sofar(exists(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == m.Namespace))
define nsOf(c, m, n) = sofar(exists(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == m.Namespace && g.mv == n))
define isSystem(m) = m.Event == OnNamespaceConnect || m.Event == OnNamespaceDisconnect || m.Event == OnRoomJoin || m.Event == OnRoomLeave
func Conn.handleMessage(c, msg) err
  mode abstract
  requires imp(msg.FromExplicit != "", msg.wait == "")
  on FIRE [handlers] {C07, C04} fe == fns.events && fns.Conn == c && imp(isNativeIn(c, msg), same(fm, msg) && fns.namespace == "") && imp(!isNativeIn(c, msg), same(fm, with(msg, IsLocal, false)) && fns.namespace == msg.Namespace && !isSystem(msg))
  on FIRE [connected] {C07} sofar(exists(g, NS_GET, g.mm == c.connectedNamespaces && g.mk == ite(isNativeIn(c, msg), "", msg.Namespace) && g.mv == fns))
  on FIRE [no-reply] {C09} !msg.isInvalid && sofar(none(f, FIRE)) && (isNativeIn(c, msg) || !ownToken(c, msg)) && nolocks(this)
  on SEND [own-request] {C09} same(v, msg) && sofar(none(s, SEND)) && (sofar(exists(g, WM_GET, g.mm == c.waitingMessages && g.mk == msg.wait && g.mv == ch)) || sofar(!isClient(c) && exists(g, SWM_GET, g.mm == c.server.waitingMessages && g.mk == msg.wait && g.mv == ch)))
  on X_NOTIFY [exchange] {C27, C09} usesExchange(c) && xx == c.server.StackExchange && msg.FromStackExchange && same(xm, msg) && xtok == msg.wait && sofar(none(s, SEND))
  proves [malformed] {C03} imp(msg.isInvalid, err == ErrInvalidPayload && noEffect() && noDispatch() && none(s, SEND))
  proves [native] {C04} imp(!msg.isInvalid && isNativeIn(c, msg), count(f, FIRE) <= 1 && imp(none(f, FIRE), err == ErrBadNamespace) && forall(f, FIRE, err == f.ferr) && silent() && none(s, SEND) && none(n, X_NOTIFY) && none(y, REPLYCONNECT) && none(y, REPLYDISC) && none(y, REPLYJOIN) && none(y, REPLYLEAVE))
  proves [reply-delivered] {C09} imp(!msg.isInvalid && !isNativeIn(c, msg) && ownToken(c, msg), noDispatch() && silent() && imp(none(n, X_NOTIFY), exists(g, SWM_GET, g.mv != nil) || one(g, WM_GET)) && imp(exists(g, WM_GET, g.mv != nil), exists(s, SEND, true) || exists(x, POLL, exists(g, WM_GET, waits(x, g.mv)))) && forall(g, SWM_GET, imp(g.mv != nil, exists(x, POLL, waits(x, g.mv)) || exists(s, SEND, s.ch == g.mv))))
  proves [server-reply-delivered] {C09, C27} imp(!msg.isInvalid && !isNativeIn(c, msg) && ownToken(c, msg) && !isClient(c), exists(n, X_NOTIFY, true) || one(g, SWM_GET))
  proves [never-blocks] {C09} neverBlocks()
  proves [exchange-notified] {C27} imp(!msg.isInvalid && !isNativeIn(c, msg) && ownToken(c, msg) && usesExchange(c) && msg.FromStackExchange, one(n, X_NOTIFY) && forall(n, X_NOTIFY, err == n.xerr))
  proves [connect] {C12} imp(goesOn(c, msg) && msg.Event == OnNamespaceConnect, one(y, REPLYCONNECT) && forall(y, REPLYCONNECT, y.yc == c && same(y.ym, msg)))
  proves [disconnect] {C13} imp(goesOn(c, msg) && msg.Event == OnNamespaceDisconnect, one(y, REPLYDISC) && forall(y, REPLYDISC, y.yc == c && same(y.ym, msg)))
  proves [join] {C14} imp(goesOn(c, msg) && msg.Event == OnRoomJoin && exists(g, NS_GET, g.mv != nil), one(y, REPLYJOIN) && forall(y, REPLYJOIN, y.yn.Conn == c && y.yn.namespace == msg.Namespace && same(y.ym, msg)))
  proves [leave] {C15} imp(goesOn(c, msg) && msg.Event == OnRoomLeave && exists(g, NS_GET, g.mv != nil), one(y, REPLYLEAVE) && forall(y, REPLYLEAVE, y.yn.Conn == c && y.yn.namespace == msg.Namespace && same(y.ym, msg)))
  proves [event] {C07} imp(goesOn(c, msg) && !isSystem(msg) && exists(g, NS_GET, g.mv != nil), one(f, FIRE) && forall(f, FIRE, err == f.ferr))
  proves [not-connected] {C07, C08} imp(goesOn(c, msg) && msg.Event != OnNamespaceConnect && msg.Event != OnNamespaceDisconnect, one(g, NS_GET) && forall(g, NS_GET, imp(g.mv == nil, noDispatch() && imp(!isSystem(msg), err == ErrBadNamespace))))
  on WRITE [answer] {C08} wc == c && same(wm, with(msg, IsLocal, false, Err, wm.Err)) && sofar(none(w, WRITE) && none(r, RAW)) && sofar(exists(f, FIRE, f.ferr == wm.Err && f.ferr != nil)) && !isNativeIn(c, msg)
  proves [answered] {C08} imp(goesOn(c, msg), forall(f, FIRE, iff(f.ferr != nil, exists(w, WRITE, true))))
  on RAW [bad-namespace] {C08, C29} rc == c && rbin == msg.SetBinary && msg.wait != "" && sofar(none(w, WRITE) && none(r, RAW)) && sofar(exists(g, NS_GET, g.mk == msg.Namespace && g.mv == nil)) && sofar(exists(s, SERIALIZE, str(s.sout) == str(rb) && same(s.sm, with(msg, Err, ErrBadNamespace, FromExplicit, ""))))
  proves [bad-namespace-answered] {C08} imp(goesOn(c, msg) && msg.Event != OnNamespaceConnect && msg.Event != OnNamespaceDisconnect && msg.wait != "", forall(g, NS_GET, imp(g.mv == nil, one(r, RAW))))
  proves [membership] {C07, C03} none(s, NS_SET) && none(d, NS_DEL) && none(s, R_SET) && none(d, R_DEL) && none(a, ASK) && none(a, ACKSET) && none(u, UNWAIT) && none(d, WM_SET) && none(d, WM_DEL)
  proves [waits-for-connect] {C29} imp(goesOn(c, msg) && msg.Event != OnNamespaceConnect && msg.Event != OnNamespaceDisconnect, one(w, PWAIT) && exists(g, GETP, g.ps == c.processes && g.pname == msg.Namespace && exists(w, PWAIT, w.pp == g.pp)) && before(w, PWAIT, true, g, NS_GET, true))
  proves [waits-only-then] {C29} imp(msg.Event == OnNamespaceConnect || msg.Event == OnNamespaceDisconnect || msg.isInvalid || ownToken(c, msg), none(w, PWAIT))

# ---- connecting ----
event ASKCONNECT = call Conn.askConnect(jc, jctx, jname) jns, jerr
func Conn.Connect(c, ctx, namespace) (ns, err)
  mode abstract
  on ASKCONNECT [asks] {C12} jc == c && jctx == ctx && jname == namespace && sofar(none(a, ASKCONNECT)) && (isClient(c) || last(sofar(exists(a, ACKGET, a.oc == c && a.ov > 0))))
  loopinv time.Duration t: t > 0 && t <= 10000000000
  turn [wait-ends] {C12} rundown("time.Duration")
  on UNWAIT [accepts] {C18, C12} !isClient(c) && uw == c.readiness && uerr == nil
  proves [result] {C12} forall(a, ASKCONNECT, ns == a.jns && err == a.jerr) && imp(none(a, ASKCONNECT), ns == nil && err != nil)
  proves [client-asks] {C12} imp(isClient(c), one(a, ASKCONNECT))
  proves [gave-up] {C12, C16} imp(none(a, ASKCONNECT) && err == ErrWrite, last(exists(l, ISCLOSED, l.ov == 1)))

func Conn.WaitConnect(c, ctx, namespace) (ns, err)
  mode abstract
  loopinv *NSConn v: v == nil || v.Conn == c && v.namespace == namespace
  proves [connected] {C12, C31} imp(err == nil, ns != nil && ns.Conn == c && ns.namespace == namespace && last(exists(a, ACKGET, a.oc == c && a.ov > 0)))
  proves [context] {C12} imp(err != nil, ns == nil && last(exists(r, RECV_CTX, true)))
  proves [quiet] {C12} silent() && none(s, NS_SET) && none(f, FIRE) && none(a, ASK)
