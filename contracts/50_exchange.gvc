# ---- combined exchanges (C26) ----
class frozen stackExchangeWrapper.parent stackExchangeWrapper.current
nonnil stackExchangeWrapper.parent stackExchangeWrapper.current
func wrapStackExchanges(a, b) r
  requires a != nil && b != nil
  ensures [pair] {C26} typeis(r, "*stackExchangeWrapper") && unbox(r, "*stackExchangeWrapper").parent == a && unbox(r, "*stackExchangeWrapper").current == b

func stackExchangeInit(s, namespaces) err
  proves [init] {C26} count(i, X_INIT) <= 1 && forall(i, X_INIT, i.xi == s && i.xnss == namespaces && err == i.xierr) && imp(none(i, X_INIT), err == nil)

func stackExchangeWrapper.OnConnect(s, c) err
  on X_CONNECT [order] {C26} ite(sofar(none(x, X_CONNECT)), xx == s.parent, xx == s.current) && xc == c && sofar(forall(x, X_CONNECT, x.xerr == nil))
  proves [result] {C26, C18} exists(x, X_CONNECT, true) && count(x, X_CONNECT) <= 2 && ite(forall(x, X_CONNECT, x.xerr == nil), err == nil && count(x, X_CONNECT) == 2, exists(x, X_CONNECT, err == x.xerr && x.xerr != nil))

func stackExchangeWrapper.OnDisconnect(s, c)
  proves [both] {C26, C17} count(x, X_DISCONNECT) == 2 && forall(x, X_DISCONNECT, x.xc == c)
  on X_DISCONNECT [order] {C26} ite(sofar(none(x, X_DISCONNECT)), xx == s.parent, xx == s.current)

func stackExchangeWrapper.Publish(s, msgs) ok
  on X_PUBLISH [order] {C26} ite(sofar(none(x, X_PUBLISH)), xx == s.parent, xx == s.current) && sameslice(xmsgs, msgs)
  proves [both] {C26} count(x, X_PUBLISH) == 2 && iff(ok, forall(x, X_PUBLISH, x.xok))

func stackExchangeWrapper.Subscribe(s, c, namespace)
  on X_SUB [order] {C26} ite(sofar(none(x, X_SUB)), xx == s.parent, xx == s.current) && xc == c && xns == namespace
  proves [both] {C26} count(x, X_SUB) == 2

func stackExchangeWrapper.Unsubscribe(s, c, namespace)
  on X_UNSUB [order] {C26} ite(sofar(none(x, X_UNSUB)), xx == s.parent, xx == s.current) && xc == c && xns == namespace
  proves [both] {C26} count(x, X_UNSUB) == 2

func stackExchangeWrapper.Ask(s, ctx, msg, token) (reply, err)
  on X_ASK [order] {C26, C27} ite(sofar(none(x, X_ASK)), xx == s.parent, xx == s.current && sofar(exists(x, X_ASK, x.xx == s.parent && x.xerr != nil))) && xctx == ctx && same(xm, msg) && xtok == token
  proves [falls-back] {C26, C27} exists(x, X_ASK, nth(x, 1) && ite(x.xerr == nil, one(y, X_ASK) && err == nil && same(reply, x.xreply), count(y, X_ASK) == 2 && exists(y, X_ASK, nth(y, 2) && err == y.xerr && same(reply, y.xreply))))

func stackExchangeWrapper.NotifyAsk(s, msg, token) err
  on X_NOTIFY [order] {C26, C27} ite(sofar(none(x, X_NOTIFY)), xx == s.parent, xx == s.current && sofar(exists(x, X_NOTIFY, x.xx == s.parent && x.xerr != nil))) && same(xm, msg) && xtok == token
  proves [falls-back] {C26, C27} exists(x, X_NOTIFY, nth(x, 1) && ite(x.xerr == nil, one(y, X_NOTIFY) && err == nil, count(y, X_NOTIFY) == 2 && exists(y, X_NOTIFY, nth(y, 2) && err == y.xerr)))
