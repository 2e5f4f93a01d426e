# ---- bundled exchanges: nats (C26, C27) ----
class frozen nats.StackExchange.SubjectPrefix nats.StackExchange.publisher nats.StackExchange.opts nats.subscriber.conn nats.subscriber.subConn
class frozen nats.StackExchange.addSubscriber nats.StackExchange.delSubscriber nats.StackExchange.subscribe nats.StackExchange.unsubscribe nats.StackExchange.subscribers
confined nats.subscriber.subscriptions nats.StackExchange.run
nonnil nats.StackExchange.addSubscriber nats.StackExchange.delSubscriber nats.StackExchange.subscribe nats.StackExchange.unsubscribe nats.StackExchange.subscribers
confined nats.StackExchange.subscribers nats.StackExchange.run nats.NewStackExchange
nonnil nats.StackExchange.publisher nats.subscriber.conn nats.subscriber.subConn
nonnilres (github.com/nats-io/nats.go.Options).Connect (*github.com/nats-io/nats.go.Conn).Subscribe
assumption connection ids and namespaces are valid names of the broker (no wildcards) and no connection id is the name of a namespace
event NT_PUB = ext (*github.com/nats-io/nats.go.Conn).Publish(nc, ns, nb) nerr
event NT_SUB = ext (*github.com/nats-io/nats.go.Conn).Subscribe(nc, ns, nf) nsub, nerr
event NT_FLUSH = ext (*github.com/nats-io/nats.go.Conn).Flush(nc) nerr
event NT_LASTERR = ext (*github.com/nats-io/nats.go.Conn).LastError(nc) nerr
event NT_CONNECT = ext (github.com/nats-io/nats.go.Options).Connect(no) nc, nerr
event NT_CLOSE = ext (*github.com/nats-io/nats.go.Conn).Close(nc)
event NT_ISCLOSED = ext (*github.com/nats-io/nats.go.Conn).IsClosed(nc) nok
event NT_ISCONN = ext (*github.com/nats-io/nats.go.Conn).IsConnected(nc) nok
event NT_UNSUB = ext (*github.com/nats-io/nats.go.Subscription).Unsubscribe(nsub) nerr
event NX_PUB = call nats.StackExchange.publish(xe, xm) xok
# what Server.Broadcast and Server.Ask give to an exchange: never a token and an excluded sender together (proved there);
# a room without its namespace is refused by a panic of the exchange.
assumption a message sent through an exchange does not name a room without a namespace, and Server.Ask is not given a message with FromExplicit set by hand
define publishable(m) = !(m.FromExplicit != "" && m.wait != "") && (m.To != "" || m.Namespace != "" || m.Room == "")
define natsSubject(e, ns, id) = e.SubjectPrefix + "." + ite(id != "", id, ns)

func nats.StackExchange.getSubject(exc, namespace, room, connID) r
  requires connID != "" || namespace != "" || room == ""
  ensures [subject] {C26} r == natsSubject(exc, namespace, connID)

func nats.StackExchange.publish(exc, msg) r
  mode abstract
  requires publishable(msg)
  proves [published] {C26, C27} one(p, NT_PUB) && forall(p, NT_PUB, p.nc == exc.publisher && p.ns == natsSubject(exc, msg.Namespace, msg.To) && exists(s, SERIALIZE, same(s.sm, msg) && str(s.sout) == str(p.nb)) && iff(r, p.nerr == nil))

func nats.StackExchange.Publish(exc, msgs) r
  eachreq m in msgs: publishable(m)
  each published: m in msgs: one(p, NX_PUB) && forall(p, NX_PUB, p.xe == exc && same(p.xm, m) && p.xok)
  proves [all] {C26, C06} imp(r, each("published"))
  proves [failure] {C26} last(forall(p, NX_PUB, imp(!p.xok, !r)))

func nats.makeMsgHandler(c) f
  requires c != nil
  proves [delivers] {C26, C06} runs(f, m, one(d, DESERIALIZE) && one(w, WRITE) && forall(w, WRITE, w.wc == c && exists(d, DESERIALIZE, str(d.db) == str(m.Data) && same(w.wm, with(d.dm, FromStackExchange, true)))))

event NX_ADD = send nats.StackExchange.addSubscriber(ch, v)
event NX_DEL = send nats.StackExchange.delSubscriber(ch, v)
event NX_SUB = send nats.StackExchange.subscribe(ch, v)
event NX_UNSUB = send nats.StackExchange.unsubscribe(ch, v)
event NX_HANDLER = call nats.makeMsgHandler(hc) hf
func nats.StackExchange.OnConnect(exc, c) err
  requires c != nil
  on NT_SUB [own-subject] {C26} ns == natsSubject(exc, "", c.id) && sofar(exists(o, NT_CONNECT, o.nc == nc && o.nerr == nil && o.no == exc.opts)) && runs(nf, m, one(w, WRITE) && forall(w, WRITE, w.wc == c && exists(d, DESERIALIZE, str(d.db) == str(m.Data) && same(w.wm, with(d.dm, FromStackExchange, true)))))
  on NX_ADD [registered] {C26} ch == exc.addSubscriber && v.conn == c && isfresh(v) && sofar(one(s, NT_SUB) && forall(s, NT_SUB, s.nerr == nil && s.nc == v.subConn) && one(l, NT_LASTERR, l.nerr == nil) && exists(f, NT_FLUSH, f.nc == v.subConn))
  proves [result] {C26, C18} ite(err == nil, one(a, NX_ADD), none(a, NX_ADD)) && forall(o, NT_CONNECT, imp(o.nerr != nil, err == o.nerr)) && forall(o, NT_SUB, imp(o.nerr != nil, err == o.nerr)) && forall(o, NT_LASTERR, imp(o.nerr != nil, err == o.nerr))

func nats.StackExchange.Subscribe(exc, c, namespace)
  proves [told] {C26} one(s, NX_SUB) && forall(s, NX_SUB, s.ch == exc.subscribe && s.v.conn == c && s.v.namespace == namespace)
func nats.StackExchange.Unsubscribe(exc, c, namespace)
  proves [told] {C26} one(s, NX_UNSUB) && forall(s, NX_UNSUB, s.ch == exc.unsubscribe && s.v.conn == c && s.v.namespace == namespace)
func nats.StackExchange.OnDisconnect(exc, c)
  proves [told] {C26, C17} one(s, NX_DEL) && forall(s, NX_DEL, s.ch == exc.delSubscriber && s.v.conn == c)

func nats.StackExchange.Ask(exc, ctx, msg, token) (response, err)
  requires ctx != nil && publishable(msg)
  on NX_PUB [after-subscribing] {C27, C10} xe == exc && same(xm, msg) && sofar(one(s, NT_SUB) && forall(s, NT_SUB, s.ns == token && s.nerr == nil && exists(o, NT_CONNECT, o.nc == s.nc && o.nerr == nil) && exists(f, NT_FLUSH, f.nc == s.nc && f.nerr == nil)))
  proves [asked] {C27, C10} imp(err == nil, one(p, NX_PUB) && forall(p, NX_PUB, p.xok) && one(r, RECV_LOCAL) && forall(r, RECV_LOCAL, same(response, r.v)))
  proves [refused] {C27, C10} forall(p, NX_PUB, imp(!p.xok, err == ErrWrite))
  on NT_SUB [reply] {C27} ns == token && runs(nf, m, one(d, DESERIALIZE) && forall(d, DESERIALIZE, str(d.db) == str(m.Data) && !d.dan && !d.donly && one(e, SEND_LOCAL) && forall(e, SEND_LOCAL, same(e.v, d.dm))))

func nats.StackExchange.NotifyAsk(exc, msg, token) err
  requires !(msg.FromExplicit != "" && msg.wait != "")
  proves [notified] {C27} one(p, NT_PUB) && forall(p, NT_PUB, p.nc == exc.publisher && p.ns == token && exists(s, SERIALIZE, same(s.sm, ite(msg.FromExplicit == "", with(msg, wait, ""), msg)) && str(s.sout) == str(p.nb)) && imp(p.nerr != nil, err == p.nerr)) && forall(l, NT_LASTERR, err == l.nerr)

event NR_ADD = recv nats.StackExchange.addSubscriber(ch) v
event NR_DEL = recv nats.StackExchange.delSubscriber(ch) v
event NR_SUB = recv nats.StackExchange.subscribe(ch) v
event NR_UNSUB = recv nats.StackExchange.unsubscribe(ch) v
event NS_ADD = mapset nats.StackExchange.subscribers(so, sk, sv, sm)
event NS_DROP = mapdel nats.StackExchange.subscribers(so, sk, sm)
event NSUB_SET = mapset nats.subscriber.subscriptions(so, sk, sv, sm)
event NSUB_GET = mapget nats.subscriber.subscriptions(sm, sk) sv
chaninv nats.StackExchange.addSubscriber(e, v): v != nil && v.conn != nil
mapinv nats.StackExchange.subscribers(e, k, v): v != nil
func nats.StackExchange.run(exc)
  mode abstract
  turn [one-request] {C26} count(a, NR_ADD) + count(b, NR_DEL) + count(c, NR_SUB) + count(d, NR_UNSUB) == 1
  turn [added] {C26} forall(r, NR_ADD, one(a, NS_ADD) && forall(a, NS_ADD, a.so == exc && a.sk == r.v.conn && a.sv == r.v)) && imp(none(r, NR_ADD), none(a, NS_ADD))
  turn [subscribed] {C26} forall(r, NR_SUB, ite(at(r, has(exc.subscribers, r.v.conn)), forall(i, NT_ISCLOSED, iff(!i.nok, one(s, NT_SUB)) && iff(i.nok, one(d, NS_DROP))) && one(i, NT_ISCLOSED), none(s, NT_SUB))) && imp(none(r, NR_SUB), none(s, NT_SUB))
  on NT_SUB [subject] {C26} sofar(last(exists(r, NR_SUB, ns == natsSubject(exc, r.v.namespace, "") && at(r, exc.subscribers[r.v.conn].subConn == nc) && runs(nf, m, one(w, WRITE) && forall(w, WRITE, w.wc == at(r, exc.subscribers[r.v.conn].conn) && exists(d, DESERIALIZE, str(d.db) == str(m.Data) && same(w.wm, with(d.dm, FromStackExchange, true))))))))
  turn [kept] {C26} forall(s, NT_SUB, ite(s.nerr == nil && forall(l, NT_LASTERR, l.nerr == nil), exists(r, NR_SUB, has(exc.subscribers[r.v.conn].subscriptions, s.ns) && exc.subscribers[r.v.conn].subscriptions[s.ns] == s.nsub && imp(at(r, exc.subscribers[r.v.conn].subscriptions) != nil, exc.subscribers[r.v.conn].subscriptions == at(r, exc.subscribers[r.v.conn].subscriptions))), none(k, NSUB_SET)))
  turn [unsubscribed] {C26} forall(u, NT_UNSUB, exists(r, NR_UNSUB, at(r, has(exc.subscribers, r.v.conn) && has(exc.subscribers[r.v.conn].subscriptions, natsSubject(exc, r.v.namespace, "")) && u.nsub == exc.subscribers[r.v.conn].subscriptions[natsSubject(exc, r.v.namespace, "")]))) && forall(r, NR_UNSUB, imp(at(r, has(exc.subscribers, r.v.conn) && has(exc.subscribers[r.v.conn].subscriptions, natsSubject(exc, r.v.namespace, ""))) && forall(i, NT_ISCLOSED, !i.nok), one(u, NT_UNSUB)))
  turn [dropped] {C26, C17} forall(r, NR_DEL, iff(at(r, has(exc.subscribers, r.v.conn)), one(d, NS_DROP)) && forall(d, NS_DROP, d.so == exc && d.sk == r.v.conn) && imp(at(r, has(exc.subscribers, r.v.conn)), one(i, NT_ISCONN) && forall(i, NT_ISCONN, iff(i.nok, one(k, NT_CLOSE)) && forall(k, NT_CLOSE, k.nc == i.nc))))

event NX_RUN = call nats.StackExchange.run(re)
func nats.NewStackExchange(url, options) (exc, err)
  proves [running] {C26, C27} ite(err == nil, isfresh(exc) && exc.SubjectPrefix != "" && one(r, NX_RUN) && forall(r, NX_RUN, r.re == exc && !sync(r)) && one(c, NT_CONNECT) && forall(c, NT_CONNECT, c.nerr == nil && c.nc == exc.publisher), exc == nil && none(r, NX_RUN))
  proves [separate] {C26} imp(err == nil, exc.addSubscriber != nil && exc.delSubscriber != nil && exc.subscribe != nil && exc.unsubscribe != nil && exc.subscribers != nil && len(exc.subscribers) == 0)

# ---- bundled exchanges: redis (C26, C27) ----
class frozen redis.StackExchange.channel redis.StackExchange.pool redis.StackExchange.connFunc redis.subscriber.conn redis.subscriber.pubSub redis.subscriber.msgCh
class frozen redis.StackExchange.addSubscriber redis.StackExchange.delSubscriber redis.StackExchange.subscribe redis.StackExchange.unsubscribe redis.StackExchange.subscribers
nonnil redis.StackExchange.addSubscriber redis.StackExchange.delSubscriber redis.StackExchange.subscribe redis.StackExchange.unsubscribe redis.StackExchange.subscribers
nonnil redis.StackExchange.pool redis.subscriber.conn redis.subscriber.pubSub redis.subscriber.msgCh
confined redis.StackExchange.subscribers redis.StackExchange.run redis.NewStackExchange
nonnilres github.com/mediocregopher/radix/v3.PersistentPubSub github.com/mediocregopher/radix/v3.NewPool
event RD_CMD = ext github.com/mediocregopher/radix/v3.FlatCmd(cr, ccmd, ckey, cargs) cc
event RD_DO = ext (*github.com/mediocregopher/radix/v3.Pool).Do(dp, dc) derr
event RD_PS = ext github.com/mediocregopher/radix/v3.PersistentPubSub(pn, pa, pf) pp
event RD_SUB = icall github.com/mediocregopher/radix/v3.PubSubConn.Subscribe(sp, sch, schs) serr
event RD_UNSUB = icall github.com/mediocregopher/radix/v3.PubSubConn.Unsubscribe(sp, sch, schs) serr
event RD_PSUB = icall github.com/mediocregopher/radix/v3.PubSubConn.PSubscribe(sp, sch, schs) serr
event RD_PUNSUB = icall github.com/mediocregopher/radix/v3.PubSubConn.PUnsubscribe(sp, sch, schs) serr
event RD_CLOSE = icall github.com/mediocregopher/radix/v3.PubSubConn.Close(sp) serr
event RX_PUB = call redis.StackExchange.publish(xe, xm) xok
event RX_CMD = call redis.StackExchange.publishCommand(xe, xch, xb) xerr
define redisChannel(e, ns, id) = e.channel + "." + ite(id != "", id, ns) + "."

func redis.StackExchange.getChannel(exc, namespace, room, connID) r
  requires connID != "" || namespace != "" || room == ""
  ensures [channel] {C26} r == redisChannel(exc, namespace, connID)

func redis.StackExchange.publishCommand(exc, channel, b) err
  mode abstract
  proves [command] {C26, C27} one(d, RD_DO) && forall(d, RD_DO, d.dp == exc.pool && err == d.derr && exists(c, RD_CMD, c.cc == d.dc && c.ccmd == "PUBLISH" && c.ckey == channel && len(c.cargs) == 1 && c.cargs[0] == box(b)))

func redis.StackExchange.publish(exc, msg) r
  mode abstract
  requires publishable(msg)
  proves [published] {C26, C27} one(p, RX_CMD) && forall(p, RX_CMD, p.xe == exc && p.xch == redisChannel(exc, msg.Namespace, msg.To) && exists(s, SERIALIZE, same(s.sm, msg) && str(s.sout) == str(p.xb)) && iff(r, p.xerr == nil))

func redis.StackExchange.Publish(exc, msgs) r
  eachreq m in msgs: publishable(m)
  each published: m in msgs: one(p, RX_PUB) && forall(p, RX_PUB, p.xe == exc && same(p.xm, m) && p.xok)
  proves [all] {C26, C06} imp(r, each("published"))
  proves [failure] {C26} last(forall(p, RX_PUB, imp(!p.xok, !r)))

event RX_ADD = send redis.StackExchange.addSubscriber(ch, v)
event RX_DEL = send redis.StackExchange.delSubscriber(ch, v)
event RX_SUB = send redis.StackExchange.subscribe(ch, v)
event RX_UNSUB = send redis.StackExchange.unsubscribe(ch, v)
func redis.StackExchange.Subscribe(exc, c, namespace)
  proves [told] {C26} one(s, RX_SUB) && forall(s, RX_SUB, s.ch == exc.subscribe && s.v.conn == c && s.v.namespace == namespace)
func redis.StackExchange.Unsubscribe(exc, c, namespace)
  proves [told] {C26} one(s, RX_UNSUB) && forall(s, RX_UNSUB, s.ch == exc.unsubscribe && s.v.conn == c && s.v.namespace == namespace)
func redis.StackExchange.OnDisconnect(exc, c)
  proves [told] {C26, C17} one(s, RX_DEL) && forall(s, RX_DEL, s.ch == exc.delSubscriber && s.v.conn == c)

func redis.StackExchange.OnConnect(exc, c) err
  async RECV_LOCAL DESERIALIZE WRITE
  requires c != nil
  proves [own-channel] {C26} one(s, RD_SUB) && forall(s, RD_SUB, len(s.schs) == 1 && s.schs[0] == redisChannel(exc, "", c.id) && exists(p, RD_PS, p.pp == s.sp && p.pf == exc.connFunc) && one(a, RX_ADD) && forall(a, RX_ADD, a.v.conn == c && a.v.pubSub == s.sp && a.v.msgCh == s.sch && a.ch == exc.addSubscriber))
  proves [result] {C26, C18} err == nil
  turn [delivers] {C26, C06} one(w, WRITE) && forall(w, WRITE, w.wc == c && exists(r, RECV_LOCAL, exists(d, DESERIALIZE, str(d.db) == str(r.v.Message) && same(w.wm, with(d.dm, FromStackExchange, true)))))

func redis.StackExchange.Ask(exc, ctx, msg, token) (response, err)
  requires ctx != nil && publishable(msg)
  on RX_PUB [after-subscribing] {C27, C10} xe == exc && same(xm, msg) && sofar(one(s, RD_SUB) && forall(s, RD_SUB, s.serr == nil && len(s.schs) == 1 && s.schs[0] == token && exists(p, RD_PS, p.pp == s.sp)))
  proves [asked] {C27, C10} imp(err == nil, one(p, RX_PUB) && forall(p, RX_PUB, p.xok) && one(r, RECV_LOCAL) && one(d, DESERIALIZE) && forall(r, RECV_LOCAL, forall(d, DESERIALIZE, str(d.db) == str(r.v.Message) && same(response, d.dm) && !d.dan && !d.donly)))
  proves [refused] {C27, C10} forall(p, RX_PUB, imp(!p.xok, err == ErrWrite))

func redis.StackExchange.NotifyAsk(exc, msg, token) err
  requires !(msg.FromExplicit != "" && msg.wait != "")
  proves [notified] {C27} one(p, RX_CMD) && forall(p, RX_CMD, p.xe == exc && p.xch == token && exists(s, SERIALIZE, same(s.sm, ite(msg.FromExplicit == "", with(msg, wait, ""), msg)) && str(s.sout) == str(p.xb)) && err == p.xerr)

event RR_ADD = recv redis.StackExchange.addSubscriber(ch) v
event RR_DEL = recv redis.StackExchange.delSubscriber(ch) v
event RR_SUB = recv redis.StackExchange.subscribe(ch) v
event RR_UNSUB = recv redis.StackExchange.unsubscribe(ch) v
event RS_ADD = mapset redis.StackExchange.subscribers(so, sk, sv, sm)
event RS_DROP = mapdel redis.StackExchange.subscribers(so, sk, sm)
event RS_CLOSE = close redis.subscriber.msgCh(ch)
chaninv redis.StackExchange.addSubscriber(e, v): v != nil && v.conn != nil
mapinv redis.StackExchange.subscribers(e, k, v): v != nil
func redis.StackExchange.run(exc)
  mode abstract
  turn [one-request] {C26} count(a, RR_ADD) + count(b, RR_DEL) + count(c, RR_SUB) + count(d, RR_UNSUB) == 1
  turn [added] {C26} forall(r, RR_ADD, one(a, RS_ADD) && forall(a, RS_ADD, a.so == exc && a.sk == r.v.conn && a.sv == r.v)) && imp(none(r, RR_ADD), none(a, RS_ADD))
  turn [subscribed] {C26} forall(r, RR_SUB, iff(at(r, has(exc.subscribers, r.v.conn)), one(s, RD_SUB)) && forall(s, RD_SUB, len(s.schs) == 1 && s.schs[0] == redisChannel(exc, r.v.namespace, "") && s.sp == exc.subscribers[r.v.conn].pubSub && s.sch == exc.subscribers[r.v.conn].msgCh)) && imp(none(r, RR_SUB), none(s, RD_SUB))
  turn [unsubscribed] {C26} forall(r, RR_UNSUB, iff(at(r, has(exc.subscribers, r.v.conn)), one(s, RD_UNSUB)) && forall(s, RD_UNSUB, len(s.schs) == 1 && s.schs[0] == redisChannel(exc, r.v.namespace, "") && s.sp == exc.subscribers[r.v.conn].pubSub && s.sch == exc.subscribers[r.v.conn].msgCh)) && imp(none(r, RR_UNSUB), none(s, RD_UNSUB))
  turn [dropped] {C26, C17} forall(r, RR_DEL, iff(at(r, has(exc.subscribers, r.v.conn)), one(d, RS_DROP)) && forall(d, RS_DROP, d.so == exc && d.sk == r.v.conn && one(k, RD_CLOSE) && forall(k, RD_CLOSE, k.sp == at(r, exc.subscribers[r.v.conn].pubSub)))) && imp(none(r, RR_DEL), none(d, RS_DROP) && none(k, RD_CLOSE))

event RX_RUN = call redis.StackExchange.run(re)
event RD_POOL = ext github.com/mediocregopher/radix/v3.NewPool(pn, pa, pk, po) pp, perr
func redis.NewStackExchange(cfg, channel) (exc, err)
  proves [running] {C26, C27} ite(err == nil, isfresh(exc) && exc.channel == channel && one(r, RX_RUN) && forall(r, RX_RUN, r.re == exc && !sync(r)) && one(c, RD_POOL) && forall(c, RD_POOL, c.perr == nil && c.pp == exc.pool), exc == nil && none(r, RX_RUN))
  proves [separate] {C26} imp(err == nil, exc.addSubscriber != nil && exc.delSubscriber != nil && exc.subscribe != nil && exc.unsubscribe != nil && exc.subscribers != nil && len(exc.subscribers) == 0)
