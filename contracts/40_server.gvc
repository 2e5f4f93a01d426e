# ---- the server's own goroutine (C17, C06, C23) ----
event SC_SET = mapset Server.connections(so, sk, sv, smap)
event SC_DEL = mapdel Server.connections(so, sk, smap)
event COUNTADD = add Server.count(co, cd) cn
event COUNTGET = load Server.count(co) cn
event RECV_CONNECT = recv Server.connect(ch) v
event RECV_DISC = recv Server.disconnect(ch) v
event RECV_BC = recv Server.broadcastMessages(ch) v
event RECV_ACT = recv Server.actions(ch) v
event CONN_SEND = send Server.connect(ch, v)
event DISC_SEND = send Server.disconnect(ch, v)
event BC_SEND = send Server.broadcastMessages(ch, v)
event ACT_SEND = send Server.actions(ch, v)
event ONDISC = dyn Server.OnDisconnect(df, ds, dc)
event ONCONN = dyn Server.OnConnect(df, ds, dc) derr
event ONUPERR = dyn Server.OnUpgradeError(df, ds, de)
event PUB = call publishMessages(pc, pmsgs) pok
event DOCALL = dyn func(*Conn)(df, dc)
event WAITB = call broadcastEntry.waitUntilClosed(we, wclose) wmsgs, wnext, wok
event BROADCAST = call broadcaster.broadcast(bb, bmsgs)
event SUBSCRIBE = call broadcaster.subscribe(bb) be

define told(s, c) = s.OnDisconnect != nil && (s.FireDisconnectAlways || exists(l, W_LOAD, l.w == c.readiness && l.v > 0) && exists(g, W_GETERR, g.w == c.readiness && g.v == nil))
func Server.start(s)
  mode abstract
  each published: c, u in s.connections: one(p, PUB) && forall(p, PUB, p.pc == c)
  each applied: c, u in s.connections: one(d, DOCALL) && forall(d, DOCALL, d.dc == c)
  turn [one-request] {C17} count(a, RECV_CONNECT) + count(b, RECV_DISC) + count(c, RECV_BC) + count(d, RECV_ACT) == 1
  turn [connect] {C17} forall(r, RECV_CONNECT, one(t, SC_SET) && one(a, COUNTADD) && none(d, SC_DEL) && forall(t, SC_SET, t.so == s && t.sk == r.v) && forall(a, COUNTADD, a.co == s && a.cd == 1))
  turn [disconnect] {C17} forall(r, RECV_DISC, none(t, SC_SET) && iff(at(r, has(s.connections, r.v)), one(d, SC_DEL)) && iff(at(r, has(s.connections, r.v)), one(a, COUNTADD)) && forall(d, SC_DEL, d.so == s && d.sk == r.v) && forall(a, COUNTADD, a.co == s && (a.cd == 18446744073709551615 || a.cd == 0-1)))
  turn [disconnected-once] {C17} forall(r, RECV_DISC, ite(at(r, has(s.connections, r.v)) && told(s, r.v), one(o, ONDISC) && forall(o, ONDISC, o.dc == r.v), none(o, ONDISC)))
  turn [exchange-told] {C17, C26} forall(r, RECV_DISC, ite(at(r, has(s.connections, r.v)) && s.StackExchange != nil, one(x, X_DISCONNECT) && forall(x, X_DISCONNECT, x.xx == s.StackExchange && x.xc == r.v), none(x, X_DISCONNECT)))
  turn [told-after-removal] {C17} before(d, SC_DEL, true, o, ONDISC, true) && before(a, COUNTADD, true, o, ONDISC, true)
  turn [broadcast] {C06} imp(exists(r, RECV_BC, true), each("published"))
  turn [action] {C17} imp(exists(r, RECV_ACT, true), each("applied"))
  turn [action-done] {C17} forall(r, RECV_ACT, ite(r.v.done != nil, one(d, SEND) && forall(d, SEND, d.ch == r.v.done), none(d, SEND)))
  turn [done-last] {C17} allbefore(d, DOCALL, true, e, SEND, true)
  turn [nothing-else] {C17, C06} imp(none(r, RECV_BC), none(p, PUB)) && imp(none(r, RECV_ACT), none(d, DOCALL) && none(e, SEND)) && imp(none(r, RECV_DISC), none(o, ONDISC) && none(x, X_DISCONNECT) && none(d, SC_DEL)) && imp(none(r, RECV_CONNECT), none(t, SC_SET)) && imp(none(r, RECV_DISC) && none(r, RECV_CONNECT), none(a, COUNTADD))
  on PUB [those-messages] {C06} sofar(last(exists(r, RECV_BC, sameslice(pmsgs, r.v))))
  on DOCALL [that-function] {C17} sofar(last(exists(r, RECV_ACT, df == r.v.call)))

# ---- publishing to one connection (C06, C30) ----
define addressed(c, m) = !(m.from != "" && m.from == c.id) && !(m.To != "" && m.To != c.id)
func publishMessages(c, msgs) ok
  mode abstract
  requires c != nil
  each sent: m in msgs: ite(addressed(c, m), one(w, WRITE) && forall(w, WRITE, w.wc == c && same(w.wm, m)), none(w, WRITE))
  proves [every] {C06, C30} imp(ok, each("sent", WRITE))
  proves [stops-only-closed] {C06, C30} imp(!ok, last(exists(w, WRITE, !w.wok && w.wc == c) && exists(l, ISCLOSED, l.oc == c && l.ov > 0)))
  on WRITE [addressed] {C06} wc == c && addressed(c, wm)

func Server.waitMessages(s, c, entry)
  mode abstract
  requires c != nil && entry != nil
  loopinv *broadcastEntry e: e != nil
  turn [next-entry] {C30} one(w, WAITB) && forall(w, WAITB, w.we == cur("*broadcastEntry") && w.wclose == c.closeCh && w.wok && next("*broadcastEntry") == w.wnext)
  turn [publishes] {C30, C06} one(p, PUB) && forall(p, PUB, p.pc == c && p.pok && exists(w, WAITB, sameslice(p.pmsgs, w.wmsgs)))
  turn [from-entry] {C30} initial("*broadcastEntry") == entry
  on PUB [that-connection] {C06, C30} pc == c && sofar(last(one(w, WAITB, w.wok && sameslice(w.wmsgs, pmsgs))))
  proves [ends-closed] {C30, C16} last(exists(w, WAITB, !w.wok && w.wclose == c.closeCh) || exists(p, PUB, !p.pok))

# ---- actions, closing, counting (C17) ----
event DO = call Server.Do(as, afn, aasync)
event CASSRVCLOSED = cas Server.closed(xo, xold, xnew) xok
event LOADSRVCLOSED = load Server.closed(xo) xv
event STORESRVCLOSED = store Server.closed(xo, xv)
func Server.Do(s, fn, async)
  mode abstract
  requires fn != nil
  on ACT_SEND [function] {C17} v.call == fn && iff(v.done == nil, async) && ch == s.actions
  proves [once] {C17} one(a, ACT_SEND)
  proves [waits] {C17} imp(!async, one(r, RECV) && forall(r, RECV, exists(a, ACT_SEND, a.v.done == r.ch)) && before(a, ACT_SEND, true, r, RECV, true))
  proves [async] {C17} imp(async, none(r, RECV))

func Server.Close(s)
  on DO [closes-all] {C17, C16} as == s && !aasync && sofar(exists(x, CASSRVCLOSED, x.xok && x.xo == s)) && runs(afn, x0, one(k, CONNCLOSE, k.kc == x0) && none(w, WRITE))
  on CASSRVCLOSED [closed-mark] {C17, C18} xo == s && xold == 0 && xnew == 1
  proves [once] {C17} one(x, CASSRVCLOSED) && iff(exists(x, CASSRVCLOSED, x.xok), one(d, DO)) && none(t, STORESRVCLOSED)

func Server.GetTotalConnections(s) n
  proves [count] {C17, C31} one(g, COUNTGET) && forall(g, COUNTGET, g.co == s && imp(g.cn >= 0 && g.cn < 18446744073709551616, n == g.cn))

# ---- admission (C18, C17) ----
event UPGRADER = dyn Server.upgrader(uf, us, uw1, ur) usock, uperr
event HTTPERR = ext net/http.Error(hw, hmsg, hcode)
event STATUS = icall net/http.ResponseWriter.WriteHeader(hw, hcode)
event IDGEN = dyn Server.IDGenerator(gf, gs, gw1, gr) gid
event CUSTOMID = dyn IDGenerator(gf, gw1, gr) gid
event WRAPSOCK = dyn func(Socket) Socket(wf, ws0) wsock
event REFUSE = call Conn.refuse(fc, ferr2)
event STARTREADER = call Conn.startReader(rdc)
event WAITMSGS = call Server.waitMessages(wms, wmc, wme)
nonnilres Server.upgrader
nonnilres func(Socket) Socket
assumption an upgrader or dialer that reports no error gives a socket, and a socket wrapper gives one
define noAdmission() = none(nu1, UPGRADER) && none(nu2, CONN_SEND) && none(nu3, ONCONN) && none(nu4, X_CONNECT)
define admitted(k) = exists(a, CONN_SEND, a.v == k)
func Server.Upgrade(s, w, r, socketWrapper, customIDGen) (c, err)
  mode abstract
  requires w != nil && r != nil
  on UPGRADER [open-server] {C18} us == s && sofar(exists(l, LOADSRVCLOSED, l.xo == s && l.xv == 0)) && r.Method == "GET"
  proves [closed] {C18} imp(exists(l, LOADSRVCLOSED, l.xv > 0), c == nil && err == errServerClosed && noAdmission() && one(h, HTTPERR, h.hcode == 500))
  proves [head] {C18} imp(forall(l, LOADSRVCLOSED, l.xv == 0) && r.Method == "HEAD", c == nil && err == errUpgradeOnRetry && noAdmission() && one(h, STATUS) && exists(h, STATUS, h.hcode == 302))
  proves [method] {C18} imp(forall(l, LOADSRVCLOSED, l.xv == 0) && r.Method != "HEAD" && r.Method != "GET", c == nil && err == errInvalidMethod && noAdmission() && one(h, STATUS) && exists(h, STATUS, h.hcode == 405))
  proves [looks] {C18} exists(l, LOADSRVCLOSED, l.xo == s)
  proves [upgrade-fails] {C18} forall(u, UPGRADER, imp(u.uperr != nil, c == nil && err == u.uperr && none(a, CONN_SEND) && none(o, ONCONN)))
  on CONN_SEND [as-accepted] {C18, C17} ch == s.connect && isfresh(v) && v.server == s && sofar(none(a, CONN_SEND)) && v.namespaces == s.namespaces && v.readTimeout == s.readTimeout && v.writeTimeout == s.writeTimeout && hasprefix(v.serverConnID, "neffos(0x")
  on CONN_SEND [id] {C18, C06} ite(customIDGen == nil, sofar(one(g, IDGEN, g.gid == v.id && g.gs == s)) && sofar(none(g, CUSTOMID)), sofar(one(g, CUSTOMID, g.gid == v.id && g.gf == customIDGen)) && sofar(none(g, IDGEN)))
  on CONN_SEND [socket] {C18} ite(socketWrapper == nil, sofar(exists(u, UPGRADER, u.usock == v.socket)), sofar(one(k, WRAPSOCK, k.wf == socketWrapper && k.wsock == v.socket && exists(u, UPGRADER, u.usock == k.ws0))))
  on CONN_SEND [subscribed-first] {C30} imp(s.StackExchange == nil && !s.SyncBroadcaster, sofar(one(b, SUBSCRIBE, b.bb == s.broadcaster)))
  on SUBSCRIBE [before-admission] {C30} sofar(none(a, CONN_SEND))
  on WAITMSGS [broadcasts] {C30, C06} wms == s && !sync(this) && sofar(exists(a, CONN_SEND, a.v == wmc)) && sofar(exists(b, SUBSCRIBE, b.be == wme)) && s.StackExchange == nil && !s.SyncBroadcaster
  on STARTREADER [reader] {C18, C17} !sync(this) && sofar(exists(a, CONN_SEND, a.v == rdc))
  proves [served] {C18, C30} forall(a, CONN_SEND, one(d, STARTREADER) && iff(s.StackExchange == nil && !s.SyncBroadcaster, one(m, WAITMSGS)))
  on X_CONNECT [exchange] {C18, C26} sync(this) && xx == s.StackExchange && sofar(exists(a, CONN_SEND, a.v == xc))
  on ONCONN [callback] {C18} sync(this) && ds == s && sofar(exists(a, CONN_SEND, a.v == dc)) && sofar(imp(s.StackExchange != nil, one(x, X_CONNECT, x.xerr == nil)))
  on REFUSE [told-why] {C18} sofar(exists(a, CONN_SEND, a.v == fc)) && sofar(exists(x, X_CONNECT, x.xerr == ferr2 && x.xerr != nil) || exists(o, ONCONN, o.derr == ferr2 && o.derr != nil))
  on UNWAIT [accepted] {C18, C20} uerr == nil && sofar(exists(a, CONN_SEND, a.v.readiness == uw)) && sofar(imp(s.StackExchange != nil, one(x, X_CONNECT, x.xerr == nil)) && imp(s.OnConnect != nil, one(o, ONCONN, o.derr == nil))) || nativeOnly(s.namespaces) && sofar(none(a, CONN_SEND))
  proves [refused] {C18} imp(exists(x, X_CONNECT, x.xerr != nil) || exists(o, ONCONN, o.derr != nil), c == nil && err != nil && one(f, REFUSE) && forall(x, X_CONNECT, imp(x.xerr != nil, err == x.xerr)) && forall(o, ONCONN, imp(o.derr != nil, err == o.derr)))
  proves [verdict] {C18} imp(exists(a, CONN_SEND, true) && none(f, REFUSE), err == nil && exists(a, CONN_SEND, a.v == c) && exists(u, UNWAIT, u.uw == c.readiness && u.uerr == nil))
  proves [success] {C18, C17} imp(err == nil, c != nil && one(a, CONN_SEND) && exists(a, CONN_SEND, a.v == c) && none(f, REFUSE))

func Server.ServeHTTP(s, w, r)
  requires w != nil && r != nil
  proves [upgrades] {C18} one(u, DOUPGRADE) && forall(u, DOUPGRADE, u.us == s && u.uw0 == w && u.ur0 == r)

# ---- broadcasting (C06, C26) ----
event DOUPGRADE = call Server.Upgrade(us, uw0, ur0, uwrap, ugen) uc0, ue0
event SERVERBC = call Server.Broadcast(bs, bex, bmsgs)
event STRINGER = icall fmt.Stringer.String(sr) sres
# how a message is marked for an excluded sender
define byConn(e) = typeis(e, "*Conn") || typeis(e, "*NSConn")
define exId(e) = ite(typeis(e, "*Conn"), unbox(e, "*Conn").serverConnID, unbox(e, "*NSConn").Conn.serverConnID)
define unasked(out, m) = same(out, with(m, wait, "")) 
define markedFor(e, out, m) = out.wait == "" && sameExcept(out, m, from, FromExplicit, wait) && ite(e == nil, out.from == m.from && out.FromExplicit == m.FromExplicit, ite(byConn(e), out.from == m.from && out.FromExplicit == exId(e), exists(g, STRINGER, g.sr == e && ite(g.sres == "", out.from == m.from && (out.FromExplicit == "" || out.FromExplicit == m.FromExplicit), out.from == g.sres && out.FromExplicit == m.FromExplicit))))
func Server.Broadcast(s, exceptSender, msgs)
  mode abstract
  ghost k int
  requires imp(typeis(exceptSender, "*Conn"), unbox(exceptSender, "*Conn") != nil) && imp(typeis(exceptSender, "*NSConn"), unbox(exceptSender, "*NSConn") != nil)
  loopinv []Message out done: imp(0 <= k && k < len(msgs) && k < done, markedFor(exceptSender, out[k], msgs[k]))
  loopinv []Message out done: imp(0 <= k && k < len(msgs) && k >= done, same(out[k], msgs[k]))
  loopinv []Message out done: imp(0 <= k && k < len(msgs) && k < done, unasked(out[k], msgs[k]))
  loopinv []Message out done: imp(0 <= k && k < len(msgs) && k >= done, unasked(out[k], msgs[k]))
  loopinv []Message out done: len(out) == done
  loopinv []Message out done: done <= len(out)
  loopinv []Message out done: apart(out, msgs)
  proves [exchange] {C06, C26} imp(s.StackExchange != nil, one(x, X_PUBLISH) && forall(x, X_PUBLISH, x.xx == s.StackExchange && len(x.xmsgs) == len(msgs)) && none(b, BROADCAST) && none(b, BC_SEND))
  proves [sync] {C06} imp(s.StackExchange == nil && s.SyncBroadcaster, one(b, BC_SEND) && forall(b, BC_SEND, b.ch == s.broadcastMessages && len(b.v) == len(msgs)) && none(b, BROADCAST) && none(x, X_PUBLISH))
  proves [async] {C06, C30} imp(s.StackExchange == nil && !s.SyncBroadcaster, one(b, BROADCAST) && forall(b, BROADCAST, b.bb == s.broadcaster && len(b.bmsgs) == len(msgs)) && none(x, X_PUBLISH) && none(b, BC_SEND))
  on X_PUBLISH [marked] {C06} imp(0 <= k && k < len(msgs), markedFor(exceptSender, xmsgs[k], msgs[k])) && apart(xmsgs, msgs)
  on BC_SEND [marked] {C06} imp(0 <= k && k < len(msgs), markedFor(exceptSender, v[k], msgs[k])) && apart(v, msgs)
  on BROADCAST [marked] {C06} imp(0 <= k && k < len(msgs), markedFor(exceptSender, bmsgs[k], msgs[k])) && apart(bmsgs, msgs)
  proves [caller-keeps] {C06} imp(0 <= k && k < len(msgs), same(msgs[k], old(msgs[k])))

func NSConn.Broadcast(n, msgs)
  requires n.Conn.server != nil
  proves [everyone] {C06} one(b, SERVERBC) && forall(b, SERVERBC, b.bs == n.Conn.server && b.bex == nil && sameslice(b.bmsgs, msgs))
func NSConn.BroadcastOthers(n, msgs)
  requires n.Conn.server != nil
  proves [others] {C06} one(b, SERVERBC) && forall(b, SERVERBC, b.bs == n.Conn.server && (b.bex == box(n.Conn) || b.bex == box(n)) && sameslice(b.bmsgs, msgs))
event STRING_CONN = call Conn.String(sc0) sc1
func Conn.ID(c) r
  ensures [id] {C06, C31} r == c.id
func Conn.String(c) r
  ensures [id] {C06} r == c.id
func NSConn.String(n) r
  ensures [id] {C06} r == n.Conn.id
func Room.String(m) r
  ensures [id] {C06} r == m.NSConn.Conn.id
func Exclude(connID) r
  ensures [value] {C06} typeis(r, "stringerValue") && unbox(r, "stringerValue").v == connID
func stringerValue.String(v) r
  ensures [value] {C06} r == v.v

# ---- server requests (C09, C10, C27) ----
func Server.Ask(s, ctx, msg) (reply, err)
  on GENWAIT [side] {C11} !gclient
  on SWM_SET [own-token] {C10, C09} mo == s && sofar(one(g, GENWAIT, g.gw == mk)) && isfresh(mv) && s.StackExchange == nil && holds(this, "Server.waitingMessagesMutex", s)
  on SWM_DEL [own] {C10, C09} mo == s && sofar(exists(t, SWM_SET, t.mk == mk))
  on BROADCAST [request] {C27, C10} bb == s.broadcaster && !s.SyncBroadcaster && len(bmsgs) == 1 && sameExcept(bmsgs[0], msg, wait) && sofar(one(t, SWM_SET, t.mk == bmsgs[0].wait)) && nolocks(this)
  on BC_SEND [request] {C27, C10} ch == s.broadcastMessages && s.SyncBroadcaster && len(v) == 1 && sameExcept(v[0], msg, wait) && sofar(one(t, SWM_SET, t.mk == v[0].wait)) && nolocks(this)
  proves [unregistered] {C10} followed(t, SWM_SET, true, d, SWM_DEL, d.mo == t.mo && d.mk == t.mk)
  proves [sent-once] {C27, C10} imp(s.StackExchange == nil, count(b, BROADCAST) + count(b, BC_SEND) == 1 && none(x, X_ASK))
  proves [exchange] {C27, C26} imp(s.StackExchange != nil, one(x, X_ASK) && none(b, BROADCAST) && none(b, BC_SEND) && none(x, X_PUBLISH) && none(t, SWM_SET))
  on X_ASK [token] {C27} xx == s.StackExchange && sameExcept(xm, msg, wait) && sofar(one(g, GENWAIT, xtok == g.gw && xm.wait == marked(g.gw))) && xctx != nil && imp(ctx != nil, xctx == ctx)
  proves [exchange-reply] {C27} forall(x, X_ASK, same(reply, x.xreply) && err == x.xerr)
  on RECV_LOCAL [reply-own] {C09, C10} sofar(exists(t, SWM_SET, t.mv == ch))
  proves [reply] {C10, C27} imp(s.StackExchange == nil && err == nil, one(r, RECV_LOCAL, same(reply, r.v)))
  proves [reply-error] {C10} forall(r, RECV_LOCAL, same(reply, r.v) && err == r.v.Err)
  proves [listens] {C10} imp(s.StackExchange == nil, one(x, WAIT, exists(m, MADE, waits(x, m.ch))) && forall(x, WAIT, waits(x, s.broadcastMessages) || imp(ctx != nil, waits(x, pure("context.Context.Done", ctx))) && exists(m, MADE, waits(x, m.ch))))
  proves [context] {C10} imp(exists(r, RECV_CTX, true), err != nil)
  proves [buffered] {C09} forall(m, MADE, m.size == 1)

# ---- queries (C31) ----
event LMS = mapset _(lo, lk, lv, lm)
event MKCONNS = makemap map[string]*Conn(mk0)
event MKNSCONNS = makemap map[string]*NSConn(mk0)
func Server.GetConnections(s) r
  each listed: c, u in s.connections: one(x, LMS) && forall(x, LMS, x.lk == c.id && x.lv == c)
  on LMS [into-result] {C31} sofar(exists(k, MKCONNS, k.mk0 == lm))
  proves [all] {C31} each("listed") && one(k, MKCONNS) && exists(k, MKCONNS, k.mk0 == r)
func Server.GetConnectionsByNamespace(s, namespace) r
  each listed: c, u in s.connections: one(g, NS_GET) && forall(g, NS_GET, g.mk == namespace && g.mm == c.connectedNamespaces && ite(g.mv != nil, one(x, LMS) && forall(x, LMS, x.lk == c.id && x.lv == g.mv), none(x, LMS)))
  on LMS [into-result] {C31} sofar(exists(k, MKNSCONNS, k.mk0 == lm))
  proves [all] {C31} each("listed") && one(k, MKNSCONNS) && exists(k, MKNSCONNS, k.mk0 == r)

# ---- setup (C17, C24, C26) ----
event X_INIT = icall StackExchangeInitializer.Init(xi, xnss) xierr
event SETEXCH = set Server.StackExchange(eo, ev)
event SERVERSTART = call Server.start(ss0)
event GETNSS = icall ConnHandler.GetNamespaces(ch0) nss0
traced Server.StackExchange
func Server.UseStackExchange(s, exc) err
  proves [none] {C26} imp(exc == nil, err == nil && none(e, SETEXCH))
  proves [init-fails] {C26} forall(i, X_INIT, i.xi == exc && i.xnss == s.namespaces && imp(i.xierr != nil, err == i.xierr && none(e, SETEXCH)))
  proves [added] {C26} imp(exc != nil && forall(i, X_INIT, i.xierr == nil), err == nil && one(e, SETEXCH))
  on SETEXCH [after-existing] {C26} eo == s && ite(s.StackExchange == nil, ev == exc, typeis(ev, "*stackExchangeWrapper") && unbox(ev, "*stackExchangeWrapper").parent == old(s.StackExchange) && unbox(ev, "*stackExchangeWrapper").current == exc)

class frozen Struct.readTimeout Struct.writeTimeout Struct.ptr
writer Struct.readTimeout Struct.SetTimeouts
writer Struct.writeTimeout Struct.SetTimeouts
assumption the setters of a struct handler are used before it is passed on
func New(upgrader, h) s
  requires upgrader != nil && h != nil && imp(typeis(h, "*Struct"), unbox(h, "*Struct") != nil)
  ensures [fresh] {C17, C18} isfresh(s) && s.upgrader == upgrader && s.closed == 0 && s.count == 0 && s.StackExchange == nil
  proves [namespaces] {C24, C18} one(g, GETNSS) && forall(g, GETNSS, g.ch0 == h && s.namespaces == g.nss0)
  proves [timeouts] {C24, C28} imp(typeis(h, "WithTimeout"), s.readTimeout == unbox(h, "WithTimeout").ReadTimeout && s.writeTimeout == unbox(h, "WithTimeout").WriteTimeout) && imp(typeis(h, "*Struct"), s.readTimeout == unbox(h, "*Struct").readTimeout && s.writeTimeout == unbox(h, "*Struct").writeTimeout)
  proves [one-loop] {C17, C22} one(g, SERVERSTART) && forall(g, SERVERSTART, g.ss0 == s && !sync(g))
  proves [handover] {C17} forall(m, MADE, imp(m.ch == s.connect || m.ch == s.disconnect || m.ch == s.actions || m.ch == s.broadcastMessages, m.size == 0))

# ---- client (C18) ----
event DIALER = dyn Dialer(df, dctx, durl) dsock, dlerr
nonnilres Dialer
func Dial(ctx, dial, url, h) (c, err)
  requires dial != nil && imp(typeis(h, "*Struct"), unbox(h, "*Struct") != nil)
  on DIALER [url] {C18} df == dial && imp(ctx != nil, dctx == ctx) && ite(hasprefix(url, "ws://") || hasprefix(url, "wss://"), durl == url, durl == "ws://" + url)
  proves [dial-once] {C18} one(d, DIALER) && forall(d, DIALER, imp(d.dlerr != nil, c == nil && err == d.dlerr && none(a, DIALACK) && none(r, STARTREADER)))
  proves [handshake] {C18} forall(d, DIALER, imp(d.dlerr == nil, one(a, DIALACK) && one(r, STARTREADER) && forall(a, DIALACK, a.dc.socket == d.dsock && isfresh(a.dc) && ite(a.derr == nil, err == nil && c != nil && c.conn == a.dc && c.ID == a.dc.id && c.NotifyClose == a.dc.closeCh, c == nil && err == a.derr))))
  on STARTREADER [reads] {C18} !sync(this) && isfresh(rdc) && rdc.server == nil
  on DIALACK [same] {C18} sync(this) && sofar(exists(r, STARTREADER, r.rdc == dc))
  proves [namespaces] {C24} forall(g, GETNSS, imp(h != nil, g.ch0 == h) && forall(a, DIALACK, a.dc.namespaces == g.nss0))
  proves [timeouts] {C24, C28} forall(a, DIALACK, imp(typeis(h, "WithTimeout"), a.dc.readTimeout == unbox(h, "WithTimeout").ReadTimeout && a.dc.writeTimeout == unbox(h, "WithTimeout").WriteTimeout) && imp(typeis(h, "*Struct"), a.dc.readTimeout == unbox(h, "*Struct").readTimeout && a.dc.writeTimeout == unbox(h, "*Struct").writeTimeout))

class frozen Client.conn
func Client.Close(c)
  mode nilrecv
  proves [closes] {C16} ite(c != nil && c.conn != nil, one(k, CONNCLOSE) && forall(k, CONNCLOSE, k.kc == c.conn), none(k, CONNCLOSE))
event CONNECT = call Conn.Connect(jc, jctx, jname) jns, jerr
event WAITCONN = call Conn.WaitConnect(jc, jctx, jname) jns, jerr
func Client.Connect(c, ctx, namespace) (ns, err)
  requires c.conn != nil
  proves [forwards] {C12} one(j, CONNECT) && forall(j, CONNECT, j.jc == c.conn && j.jctx == ctx && j.jname == namespace && ns == j.jns && err == j.jerr)
func Client.WaitServerConnect(c, ctx, namespace) (ns, err)
  requires c.conn != nil
  proves [forwards] {C12} one(j, WAITCONN) && forall(j, WAITCONN, j.jc == c.conn && j.jctx == ctx && j.jname == namespace && ns == j.jns && err == j.jerr)
