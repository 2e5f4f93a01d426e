# ---- gorilla/socket.go (C28) ----
class frozen gorilla.Socket.UnderlyingConn gorilla.Socket.request gorilla.Socket.client
event GR_WRITE = ext (*github.com/gorilla/websocket.Conn).WriteMessage(gc, gop, gb) gerr
event GR_WDL = ext (*github.com/gorilla/websocket.Conn).SetWriteDeadline(gc, gt) gerr
event GR_RDL = ext (*github.com/gorilla/websocket.Conn).SetReadDeadline(gc, gt) gerr
event GR_READ = ext (*github.com/gorilla/websocket.Conn).ReadMessage(gc) gop, gb, gerr
event GR_NET = ext (*github.com/gorilla/websocket.Conn).UnderlyingConn(gc) gn
event NOW = ext time.Now() nw
event GR_LOCK = lock gorilla.Socket.mu(l)

func gorilla.Socket.WriteText(s, body, timeout) err
  requires s.UnderlyingConn != nil
  on GR_WRITE [frame] {C28, C22} gc == s.UnderlyingConn && gop == 1 && str(gb) == str(body) && holds(this, "gorilla.Socket.mu", s)
  on GR_WDL [deadline] {C28, C22} gc == s.UnderlyingConn && timeout > 0 && sofar(none(w, GR_WRITE)) && holds(this, "gorilla.Socket.mu", s) && sofar(exists(n, NOW, gt == pure("(time.Time).Add", n.nw, timeout)))
  proves [one-frame] {C28} one(w, GR_WRITE) && forall(w, GR_WRITE, err == w.gerr)
  proves [bounded] {C28} iff(timeout > 0, one(d, GR_WDL))

func gorilla.Socket.WriteBinary(s, body, timeout) err
  requires s.UnderlyingConn != nil
  on GR_WRITE [frame] {C28, C22} gc == s.UnderlyingConn && gop == 2 && str(gb) == str(body) && holds(this, "gorilla.Socket.mu", s)
  on GR_WDL [deadline] {C28, C22} gc == s.UnderlyingConn && timeout > 0 && sofar(none(w, GR_WRITE)) && holds(this, "gorilla.Socket.mu", s) && sofar(exists(n, NOW, gt == pure("(time.Time).Add", n.nw, timeout)))
  proves [one-frame] {C28} one(w, GR_WRITE) && forall(w, GR_WRITE, err == w.gerr)
  proves [bounded] {C28} iff(timeout > 0, one(d, GR_WDL))

func gorilla.Socket.ReadData(s, timeout) (b, typ, err)
  requires s.UnderlyingConn != nil
  turn [skipped] {C28} one(r, GR_READ) && forall(r, GR_READ, r.gerr == nil && r.gop != 1 && r.gop != 2)
  on GR_READ [that-socket] {C28} gc == s.UnderlyingConn && sofar(last(iff(timeout > 0, one(d, GR_RDL))))
  on GR_RDL [deadline] {C28} gc == s.UnderlyingConn && sofar(exists(n, NOW, gt == pure("(time.Time).Add", n.nw, timeout)))
  proves [message] {C28} imp(err == nil, last(one(r, GR_READ) && forall(r, GR_READ, r.gerr == nil && (r.gop == 1 || r.gop == 2) && typ == r.gop && str(b) == str(r.gb))))
  proves [failure] {C28} imp(err != nil, last(one(r, GR_READ) && forall(r, GR_READ, r.gerr == err)))

func gorilla.Socket.NetConn(s) r
  requires s.UnderlyingConn != nil
  proves [that] {C28, C16} one(u, GR_NET) && forall(u, GR_NET, u.gc == s.UnderlyingConn && r == u.gn)

# ---- gobwas/socket.go (C28) ----
class frozen gobwas.Socket.UnderlyingConn gobwas.Socket.request gobwas.Socket.reader gobwas.Socket.controlHandler gobwas.Socket.state gobwas.controlWriter.s
nonnil gobwas.Socket.reader gobwas.Socket.controlHandler gobwas.Socket.UnderlyingConn
event WS_WRITE = ext github.com/gobwas/ws/wsutil.WriteMessage(gc, gst, gop, gb) gerr
event NC_WDL = icall net.Conn.SetWriteDeadline(gc, gt) gerr
event NC_RDL = icall net.Conn.SetReadDeadline(gc, gt) gerr
event NC_WRITE = icall net.Conn.Write(gc, gb) gn, gerr
event WS_NEXT = ext (*github.com/gobwas/ws/wsutil.Reader).NextFrame(gr) gh, gerr
event WS_DISCARD = ext (*github.com/gobwas/ws/wsutil.Reader).Discard(gr) gerr
event WS_READALL = ext io/ioutil.ReadAll(gr) gb, gerr
extfact WS_NEXT: imp(gerr == nil, gh.OpCode == 0 || gh.OpCode == 1 || gh.OpCode == 2 || gh.OpCode == 8 || gh.OpCode == 9 || gh.OpCode == 10)
noshare github.com/gobwas/ws/wsutil.ControlFrameHandler
nonnilres github.com/gobwas/ws/wsutil.ControlFrameHandler
lockfor gobwas.Socket.mu net.Conn.SetWriteDeadline net.Conn.Write
event WS_CONTROL = dyn gobwas.Socket.controlHandler(gf, gs, gh, gr) gerr

func gobwas.Socket.WriteText(s, body, timeout) err
  on WS_WRITE [frame] {C28, C22} gc == s.UnderlyingConn && gst == s.state && gop == 1 && str(gb) == str(body) && holds(this, "gobwas.Socket.mu", s)
  on NC_WDL [deadline] {C28, C22} gc == s.UnderlyingConn && timeout > 0 && sofar(none(w, WS_WRITE)) && holds(this, "gobwas.Socket.mu", s) && sofar(exists(n, NOW, gt == pure("(time.Time).Add", n.nw, timeout)))
  proves [one-frame] {C28} one(w, WS_WRITE) && forall(w, WS_WRITE, err == w.gerr)
  proves [bounded] {C28} iff(timeout > 0, one(d, NC_WDL)) && none(w, NC_WRITE)

func gobwas.Socket.WriteBinary(s, body, timeout) err
  on WS_WRITE [frame] {C28, C22} gc == s.UnderlyingConn && gst == s.state && gop == 2 && str(gb) == str(body) && holds(this, "gobwas.Socket.mu", s)
  on NC_WDL [deadline] {C28, C22} gc == s.UnderlyingConn && timeout > 0 && sofar(none(w, WS_WRITE)) && holds(this, "gobwas.Socket.mu", s) && sofar(exists(n, NOW, gt == pure("(time.Time).Add", n.nw, timeout)))
  proves [one-frame] {C28} one(w, WS_WRITE) && forall(w, WS_WRITE, err == w.gerr)
  proves [bounded] {C28} iff(timeout > 0, one(d, NC_WDL)) && none(w, NC_WRITE)

func gobwas.controlWriter.Write(w, p) (n, err)
  requires w.s != nil
  on NC_WRITE [alone] {C28} gc == w.s.UnderlyingConn && str(gb) == str(p) && holds(this, "gobwas.Socket.mu", w.s)
  proves [once] {C28} one(x, NC_WRITE) && forall(x, NC_WRITE, n == x.gn && err == x.gerr)

func gobwas.Socket.ReadData(s, timeout) (b, typ, err)
  turn [skipped] {C28} one(r, WS_NEXT) && forall(r, WS_NEXT, r.gerr == nil && r.gh.OpCode != 1 && r.gh.OpCode != 2 && r.gh.OpCode != 8)
  proves [message] {C28} imp(err == nil, last(one(r, WS_NEXT) && one(a, WS_READALL) && forall(r, WS_NEXT, r.gerr == nil && (r.gh.OpCode == 1 || r.gh.OpCode == 2) && typ == r.gh.OpCode) && forall(a, WS_READALL, a.gerr == nil && str(b) == str(a.gb))))
  on WS_NEXT [that-socket] {C28} gr == s.reader && sofar(last(iff(timeout > 0, one(d, NC_RDL))))
  on NC_RDL [deadline] {C28} gc == s.UnderlyingConn && sofar(exists(n, NOW, gt == pure("(time.Time).Add", n.nw, timeout)))
  on WS_CONTROL [answered] {C28} gf == s.controlHandler && sofar(last(exists(r, WS_NEXT, r.gh == gh && (gh.OpCode == 9 || gh.OpCode == 10))))
  on WS_READALL [body] {C28} typeis(gr, "*github.com/gobwas/ws/wsutil.Reader") && unbox(gr, "*github.com/gobwas/ws/wsutil.Reader") == s.reader
  turn [control-answered] {C28} forall(r, WS_NEXT, ite(r.gh.OpCode == 0, one(d, WS_DISCARD, d.gr == s.reader) && none(c, WS_CONTROL), one(c, WS_CONTROL) && none(d, WS_DISCARD))) && none(a, WS_READALL)
  proves [failure] {C28} last(forall(r, WS_NEXT, imp(r.gerr != nil || r.gh.OpCode == 8, err != nil && none(a, WS_READALL))) && forall(a, WS_READALL, imp(a.gerr != nil, err == a.gerr)) && forall(c, WS_CONTROL, imp(c.gerr != nil, err == c.gerr)))

func gobwas.Socket.NetConn(s) r
  ensures [that] {C28, C16} r == s.UnderlyingConn

event WS_CTLHANDLER = ext github.com/gobwas/ws/wsutil.ControlFrameHandler(gw, gst) gf
func gobwas.newSocket(underline, request, client) s
  requires underline != nil
  ensures [fresh] {C28} isfresh(s) && s.UnderlyingConn == underline && s.request == request && s.state == ite(client, 2, 1)
  proves [control] {C28} one(h, WS_CTLHANDLER) && forall(h, WS_CTLHANDLER, h.gf == s.controlHandler && h.gst == s.state && typeis(h.gw, "gobwas.controlWriter") && unbox(h.gw, "gobwas.controlWriter").s == s)
  proves [reader] {C28} isfresh(s.reader) && s.reader.Source == underline && s.reader.State == s.state && s.reader.OnIntermediate == s.controlHandler && s.reader.CheckUTF8 && !s.reader.SkipHeaderCheck

# ---- upgraders and dialers (C18, C28) ----
func gorilla.newSocket(underline, request, client) s
  ensures [fresh] {C28} isfresh(s) && s.UnderlyingConn == underline && s.request == request && s.client == client

event GR_UPGRADE = ext (*github.com/gorilla/websocket.Upgrader).Upgrade(gu, gw, gr, gh) gc, gerr
event GR_DIAL = ext (*github.com/gorilla/websocket.Dialer).DialContext(gd, gctx, gurl, gh) gc, gresp, gerr
event WS_UPGRADE = ext (github.com/gobwas/ws.HTTPUpgrader).Upgrade(gu, gr, gw) gc, grw, ghs, gerr
event WS_DIAL = ext (github.com/gobwas/ws.Dialer).Dial(gd, gctx, gurl) gc, gbr, ghs, gerr
nonnilres (*github.com/gorilla/websocket.Upgrader).Upgrade (*github.com/gorilla/websocket.Dialer).DialContext (github.com/gobwas/ws.HTTPUpgrader).Upgrade (github.com/gobwas/ws.Dialer).Dial

define grSock(so, c, r, cl) = typeis(so, "*gorilla.Socket") && unbox(so, "*gorilla.Socket").UnderlyingConn == c && unbox(so, "*gorilla.Socket").request == r && unbox(so, "*gorilla.Socket").client == cl
define wsSock(so, c, r, st) = typeis(so, "*gobwas.Socket") && unbox(so, "*gobwas.Socket").UnderlyingConn == c && unbox(so, "*gobwas.Socket").request == r && unbox(so, "*gobwas.Socket").state == st && unbox(so, "*gobwas.Socket").reader != nil && unbox(so, "*gobwas.Socket").controlHandler != nil

func gorilla.Upgrader(upgrader) f
  proves [upgrades] {C28, C18} runs(f, w, r, one(u, GR_UPGRADE) && forall(u, GR_UPGRADE, u.gw == w && u.gr == r && ite(u.gerr != nil, res1 == u.gerr && res0 == nil, res1 == nil && grSock(res0, u.gc, r, false))))
func gorilla.Dialer(dialer, requestHeader) f
  requires dialer != nil
  proves [dials] {C28, C18} runs(f, ctx, url, one(u, GR_DIAL) && forall(u, GR_DIAL, u.gd == dialer && u.gctx == ctx && u.gurl == url && ite(u.gerr != nil, res1 == u.gerr && res0 == nil, res1 == nil && grSock(res0, u.gc, nil, true))))
func gobwas.Upgrader(upgrader) f
  proves [upgrades] {C28, C18} runs(f, w, r, one(u, WS_UPGRADE) && forall(u, WS_UPGRADE, u.gw == w && u.gr == r && ite(u.gerr != nil, res1 == u.gerr && res0 == nil, res1 == nil && wsSock(res0, u.gc, r, 1) && unbox(res0, "*gobwas.Socket").reader.Source == u.gc)))
func gobwas.Dialer(dialer) f
  proves [dials] {C28, C18} runs(f, ctx, url, one(u, WS_DIAL) && forall(u, WS_DIAL, u.gctx == ctx && u.gurl == url && ite(u.gerr != nil, res1 == u.gerr && res0 == nil, res1 == nil && wsSock(res0, u.gc, nil, 2) && ite(u.gbr == nil, unbox(res0, "*gobwas.Socket").reader.Source == u.gc, typeis(unbox(res0, "*gobwas.Socket").reader.Source, "*bufio.Reader") && unbox(unbox(res0, "*gobwas.Socket").reader.Source, "*bufio.Reader") == u.gbr))))
