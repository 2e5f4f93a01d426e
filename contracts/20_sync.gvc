# ---- waiter_once.go (C20) ----
class frozen waiterOnce.locked waiterOnce.ready waiterOnce.ch waiterOnce.err
nonnil waiterOnce.locked waiterOnce.ready waiterOnce.ch
writer waiterOnce.err waiterOnce.unwait
traced waiterOnce.err
closer waiterOnce.ch waiterOnce.unwait

event W_CAS = cas waiterOnce.*(w, old, new) ok
event W_STORE = store waiterOnce.*(w, v)
event W_LOAD = load waiterOnce.*(w) v
event W_SETERR = set waiterOnce.err(w, v)
event W_GETERR = get waiterOnce.err(w) v
event W_CLOSE = close waiterOnce.ch(ch)
event W_RECV = recv waiterOnce.ch(ch) v
event CLOSE = close _(ch)
event RECV = recv _(ch) v
event SEND = send _(ch, v)
event WAIT = wait _(a, b, c, d)

func newWaiterOnce() w
  ensures [fresh] {C20} isfresh(w) && complete(w) && none(c, CLOSE)

func waiterOnce.isReady(w) r
  mode nilrecv
  proves [ready] {C20} imp(w == nil, r)
  proves [flag] {C20} imp(w != nil, one(l, W_LOAD) && forall(l, W_LOAD, r == (l.v > 0)))

func waiterOnce.wait(w) err
  mode abstract nilrecv
  ensures [nilok] {C20} imp(w == nil, err == nil)
  proves [after-decision] {C20} imp(w != nil, one(r, RECV) && forall(r, RECV, r.ch == w.ch) && before(r, RECV, r.ch == w.ch, g, W_GETERR, true))
  proves [verdict] {C20} imp(w != nil, exists(g, W_GETERR, g.w == w && g.v == err))

define decided(w) = exists(c, W_CAS, c.w == w && c.old == 0 && c.new == 1 && c.ok)
func waiterOnce.unwait(w, err)
  mode abstract nilrecv
  on W_SETERR [owner] {C20} this.w == w && v == err && sofar(decided(w))
  on W_STORE [flag-last] {C20} v == 1 && sofar(one(s, W_SETERR))
  on CLOSE [release-last] {C20} ch == w.ch && sofar(one(s, W_SETERR)) && sofar(decided(w))
  proves [first] {C20, C18} imp(decided(w), one(s, W_SETERR) && one(k, CLOSE) && one(t, W_STORE))
  proves [later] {C20} imp(w != nil && !decided(w), none(s, W_SETERR) && none(k, CLOSE) && none(t, W_STORE))
  proves [attempt] {C20, C18} imp(w != nil, one(c, W_CAS, c.w == w && c.old == 0 && c.new == 1))
  proves [nonblocking] {C20} none(x, WAIT)

# ---- process.go (C29) ----
class frozen processes.entries processes.locker process.finished process.mu
nonnil processes.entries processes.locker process.finished
guard processes.entries by processes.locker map
mapwriter processes.entries processes.get
guard process.running by process.mu
guard process.idle by process.mu
class volatile process.done
traced process.running process.idle
lockinv process.mu(p): p.running >= 0 && imp(p.running > 0, p.idle != nil)
mapinv processes.entries(p, k, v): v != nil

event P_SET = mapset processes.entries(o, k, v, m)
event P_DEL = mapdel processes.entries(o, k, m)
event P_GET = mapget processes.entries(o, k, m) v
event P_LOCK = lock processes.locker(l)
event P_UNLOCK = unlock processes.locker(l)
event P_SETRUN = set process.running(p, v)
event P_SETIDLE = set process.idle(p, v)
event P_CLOSEIDLE = close process.idle(ch)
event P_MU = unlock process.mu(l)
closer process.idle process.Done

func newProcesses() p
  ensures [fresh] {C29} isfresh(p) && complete(p)

func processes.get(p, name) e
  mode abstract
  ensures [nonnil] {C29} e != nil
  on P_SET [only-absent] {C29} o == p && k == name && !has(m, k) && holds(this, "processes.locker")
  on P_DEL [never] {C29} false
  proves [same] {C29} exists(u, P_UNLOCK, at(u, has(p.entries, name)) && at(u, p.entries[name]) == e)

func process.Start(p)
  mode abstract
  proves [counts] {C29} one(s, P_SETRUN) && forall(s, P_SETRUN, s.p == p && s.v == at(s, p.running) + 1)
  proves [fresh-gate] {C29} forall(s, P_SETRUN, imp(at(s, p.running) == 0, exists(i, P_SETIDLE, i.p == p && isfresh(i.v))) && imp(at(s, p.running) > 0, none(i, P_SETIDLE)))
  proves [noclose] {C29} none(c, CLOSE)

func process.Done(p)
  mode abstract
  proves [counts] {C29} forall(s, P_SETRUN, s.p == p && s.v == at(s, p.running) - 1) && imp(exists(u, P_MU, true) && none(s, P_SETRUN), forall(u, P_MU, at(u, p.running) == 0))
  proves [open-last] {C29} forall(s, P_SETRUN, iff(s.v == 0, one(c, CLOSE, c.ch == at(s, p.idle)))) && imp(none(s, P_SETRUN), none(c, CLOSE))
  proves [once] {C29} count(s, P_SETRUN) <= 1 && count(c, CLOSE) <= 1
  proves [nonblocking] {C29} none(x, WAIT)

func process.Wait(p)
  mode abstract
  proves [waits-while-running] {C29} forall(u, P_MU, imp(at(u, p.running) > 0, one(r, RECV) && forall(r, RECV, r.ch == at(u, p.idle)))) && one(u, P_MU)
  proves [not-otherwise] {C29} forall(u, P_MU, imp(at(u, p.running) == 0, none(x, WAIT)))

# ---- broadcaster.go (C30) ----
class frozen broadcaster.mu broadcastEntry.filled broadcastEntry.messages broadcastEntry.next
nonnil broadcaster.mu broadcastEntry.filled
guard broadcaster.next by broadcaster.mu
lockinv broadcaster.mu(b): b.next != nil
writer broadcastEntry.messages broadcaster.broadcast
writer broadcastEntry.next broadcaster.broadcast
closer broadcastEntry.filled broadcaster.broadcast
traced broadcaster.next broadcastEntry.messages broadcastEntry.next
chaninv broadcastEntry.filled(e, v): e.next != nil
about C30: broadcastEntry.filled broadcastEntry.next broadcastEntry.messages broadcaster.next
event B_SETNEXT = set broadcaster.next(b, v)
event B_FILL = set broadcastEntry.messages(e, v)
event B_LINK = set broadcastEntry.next(e, v)
event B_GETMSGS = get broadcastEntry.messages(e) v
event B_UNLOCK = unlock broadcaster.mu(l)
event B_CLOSE = close broadcastEntry.filled(ch)
event B_RECV = recv broadcastEntry.filled(ch) v

func newBroadcaster() b
  ensures [fresh] {C30} isfresh(b) && complete(b) && b.next != nil

func broadcaster.subscribe(b) e
  mode abstract
  ensures [nonnil] {C30} e != nil
  proves [current] {C30} one(u, B_UNLOCK) && forall(u, B_UNLOCK, at(u, b.next) == e)

func broadcaster.broadcast(b, msgs)
  mode abstract
  proves [filled] {C30, C06} one(f, B_FILL) && exists(f, B_FILL, sameslice(f.v, msgs) && exists(s, B_SETNEXT, at(s, b.next) == f.e))
  proves [linked] {C30} one(l, B_LINK) && one(s, B_SETNEXT) && exists(l, B_LINK, exists(s, B_SETNEXT, l.e == at(s, b.next) && l.v == s.v && isfresh(s.v) && s.b == b))
  proves [announced] {C30} one(c, CLOSE) && exists(s, B_SETNEXT, exists(c, CLOSE, c.ch == at(s, b.next).filled))
  proves [fill-then-announce] {C30} before(f, B_FILL, true, c, CLOSE, true) && before(f, B_LINK, true, c, CLOSE, true) && one(u, B_UNLOCK)
  on B_FILL [held] {C30, C22} holds(this, "broadcaster.mu")
  proves [nonblocking] {C30} none(x, WAIT)

func broadcastEntry.waitUntilClosed(e, closeCh) (msgs, next, ok)
  mode abstract
  ensures [linked] {C30} imp(ok, next != nil)
  proves [after-filled] {C30} imp(ok, exists(r, RECV, r.ch == e.filled) && sameslice(msgs, e.messages) && next == e.next) && before(r, RECV, r.ch == e.filled, g, B_GETMSGS, true)
  proves [stops-only-on-close] {C30, C16} imp(!ok, exists(r, RECV, r.ch == closeCh))
  proves [listens] {C30, C16} one(w, WAIT) && forall(w, WAIT, waits(w, e.filled, closeCh))
