# ---- conn_handler.go (C24) ----
func Events.GetNamespaces(e) r
  ghost q string
  ensures [empty-namespace] {C24} iff(has(r, q), q == "") && r[""] == e
func Events.On(e, eventName, msgHandler)
  ghost q string
  requires e != nil
  ensures [registered] {C24} has(e, eventName) && e[eventName] == msgHandler
  ensures [others-kept] {C24} imp(q != eventName, iff(has(e, q), old(has(e, q))) && e[q] == old(e[q]))
func Namespaces.GetNamespaces(nss) r
  ensures [itself] {C24} r == nss
func Namespaces.On(nss, namespace, eventName, msgHandler) r
  ghost q string
  requires nss != nil
  ensures [registered] {C24} nss[namespace] == r && has(nss, namespace) && has(r, eventName) && r[eventName] == msgHandler
  ensures [namespaces-kept] {C24} imp(q != namespace, iff(has(nss, q), old(has(nss, q))) && nss[q] == old(nss[q]))
  ensures [same-events] {C24} imp(old(nss[namespace]) != nil, r == old(nss[namespace]))
  ensures [events-kept] {C24} imp(q != eventName, ite(old(nss[namespace]) != nil, iff(has(r, q), old(has(nss[namespace], q))) && r[q] == old(nss[namespace][q]), !has(r, q)))
  ensures [other-events] {C24} imp(q != namespace && nss[q] != r, iff(has(nss[q], eventName), old(has(nss[q], eventName))))
mapwriter Events Events.On Namespaces.On
mapwriter Namespaces Namespaces.On
event JOIN = call JoinConnHandlers(jh) jr
func JoinConnHandlers(connHandlers) r
  mode trusted
  ensures [own] {C24} typeis(r, "Namespaces")
bounded C24 JoinConnHandlers: every list of at most 3 handlers over 2 namespaces and 2 events, each namespace absent, nil, or any subset of the events (47,989 lists); the result, the arguments left alone, no map shared

func WithTimeout.GetNamespaces(t) r
  proves [joins] {C24} one(j, JOIN) && forall(j, JOIN, len(j.jh) == 2 && typeis(j.jh[0], "Namespaces") && unbox(j.jh[0], "Namespaces") == t.Namespaces && typeis(j.jh[1], "Events") && unbox(j.jh[1], "Events") == t.Events && exists(g, GETNSS, g.ch0 == j.jr && g.nss0 == r))

func Struct.SetNamespace(s, namespace) r
  ensures [set] {C24, C25} r == s && s.namespace == namespace
func Struct.SetTimeouts(s, read, write) r
  ensures [set] {C24} r == s && s.readTimeout == read && s.writeTimeout == write
func Struct.SetEventMatcher(s, matcher) r
  ensures [set] {C25} r == s && s.eventMatcher == matcher
func Struct.SetInjector(s, fn) r
  ensures [set] {C25} r == s && s.injector == fn
func Struct.GetNamespaces(s) r
  ghost q string
  proves [resolved] {C25} ite(old(s.namespace) == "", one(n, RESOLVENS) && forall(n, RESOLVENS, n.rsv == s.ptr && s.namespace == n.rsns), none(n, RESOLVENS))
  ensures [one-namespace] {C24, C25} iff(has(r, q), q == s.namespace) && r[s.namespace] == s.events && imp(old(s.namespace) != "", s.namespace == old(s.namespace))
class frozen Struct.namespace Struct.events Struct.eventMatcher Struct.injector
writer Struct.namespace Struct.SetNamespace Struct.GetNamespaces
writer Struct.events Struct.Events Struct.GetNamespaces
writer Struct.eventMatcher Struct.SetEventMatcher
writer Struct.injector Struct.SetInjector

# ---- reflect.go (C25) ----
skip Debugf DebugEach nameOf
assumption debug output (Debugf, DebugEach) is off or has no effect on the connections
pure (reflect.Value).Type (reflect.Value).Method (reflect.Value).Interface (reflect.Value).Elem reflect.Indirect reflect.ValueOf
pure reflect.Type.Kind reflect.Type.Elem reflect.Type.NumMethod reflect.Type.Method reflect.Type.NumIn reflect.Type.In reflect.Type.NumField reflect.Type.Field
nonnilres (reflect.Value).Type reflect.Type.Elem reflect.Type.In
assumption reflection tells the truth about types, methods and fields, and gives the same answer each time
define sysEvent(n) = n == OnNamespaceConnect || n == OnNamespaceConnected || n == OnNamespaceDisconnect || n == OnRoomJoin || n == OnRoomJoined || n == OnRoomLeave || n == OnRoomLeft
func IsSystemEvent(event) r
  ensures [named] {C25, C15} iff(r, sysEvent(event))

event ISARG = call isArgOf(at, aa) ares
func isArgOf(fnType, argType) r
  mode abstract
  ghost k int
  requires fnType != nil && pure("reflect.Type.Kind", fnType) == 19
  loopinv int i: i >= 0 && imp(0 <= k && k < i, pure("reflect.Type.In", fnType, k) != argType)
  proves [none] {C25} imp(!r && 0 <= k && k < pure("reflect.Type.NumIn", fnType), pure("reflect.Type.In", fnType, k) != argType)

event FUNCOF = ext reflect.FuncOf(foi, foo, fov) fot
extfact FUNCOF: fot != nil && pure("reflect.Type.Kind", fot) == 19
event MATCHER = dyn func(string) (string, bool)(mf, mn) mname, mok
event USERMETHOD = dyn func(Message) error(uf, um) uerr
event MKEVENT = call makeEventFromMethod(ev0, em0, ematch) ename, ecb
func makeEventFromMethod(v, method, eventMatcher) (eventName, cb)
  mode abstract nosafe
  requires method.Type != nil && pure("reflect.Type.Kind", method.Type) == 19
  proves [system] {C25} imp(sysEvent("_" + method.Name), eventName == "_" + method.Name && none(m, MATCHER))
  proves [own-name] {C25} imp(!sysEvent("_" + method.Name) && eventMatcher == nil, eventName == method.Name)
  proves [matched] {C25} imp(!sysEvent("_" + method.Name) && !sysEvent(method.Name) && eventMatcher != nil, one(m, MATCHER) && forall(m, MATCHER, m.mf == eventMatcher && m.mn == method.Name && ite(m.mok, eventName == m.mname, cb == nil)))
  proves [instance] {C25} imp(exists(a, ISARG, !a.ares) && cb != nil, runs(cb, c, m, one(u, USERMETHOD) && forall(u, USERMETHOD, same(u.um, m) && res == u.uerr)))

event NSFUNC = dyn func() string(uf) ur
event RESOLVENS = call resolveStructNamespace(rsv) rsns, rsok
event RSTRING = ext (reflect.Value).String(tv) tr
func resolveStructNamespace(v) (ns, ok)
  mode abstract nosafe
  ensures [none] {C25} imp(!ok, ns == "")
  proves [method] {C25} count(u, NSFUNC) <= 1 && forall(u, NSFUNC, ok && ns == u.ur)
  proves [field] {C25} imp(ok && none(u, NSFUNC), one(t, RSTRING) && forall(t, RSTRING, ns == t.tr))
func isZero(v) r
  mode trusted
event ISZERO = call isZero(zv) zr
event FIELDS_SET = mapset type:map[int]reflect.Value(fo, fk, fv, fm)
func getNonZeroFields(v) fields
  mode abstract nosafe
  turn [kept] {C25} forall(s, FIELDS_SET, s.fk == pure("reflect.Type.Field", elemOf(pure("(reflect.Value).Type", pure("reflect.Indirect", v))), cur("int")).Index[0] && exists(f, RFIELD, f.rv == pure("reflect.Indirect", v) && f.ri == s.fk && f.rr == s.fv))
  turn [exported] {C25} forall(f, RFIELD, one(z, ISZERO, z.zv == f.rr) && forall(z, ISZERO, iff(z.zr, none(s, FIELDS_SET)))) && iff(pure("reflect.Type.Field", elemOf(pure("(reflect.Value).Type", pure("reflect.Indirect", v))), cur("int")).PkgPath == "", one(f, RFIELD))
event MKEVENTS = call makeEventsFromStruct(kv, kmatch, kinj) kevents
event VALUESET = set NSConn.value(vo, vv)
traced NSConn.value
event RNEW = ext reflect.New(nt) nr
event RFIELD = ext (reflect.Value).Field(rv, ri) rr
event RSET = ext (reflect.Value).Set(tv, tx)
event INJECTOR = dyn StructInjector(inf, int0, inc) inr
event FIELDIDX = call getFieldIndex(gt, gft) gi
define elemT(v) = ite(pure("reflect.Type.Kind", pure("(reflect.Value).Type", v)) == 22, pure("reflect.Type.Elem", pure("(reflect.Value).Type", v)), pure("(reflect.Value).Type", v))
define newCtl(v, injector, c, p) = ite(injector == nil, one(n, RNEW) && forall(n, RNEW, n.nt == elemT(v) && n.nr == p) && first(one(t, RSET, t.tv == pure("(reflect.Value).Elem", p) && t.tx == pure("reflect.Indirect", v))), one(i, INJECTOR) && forall(i, INJECTOR, i.inf == injector && i.int0 == elemT(v) && i.inc == c && i.inr == p))
func getFieldIndex(forType, fieldType) r
  mode abstract
  ghost k int
  requires forType != nil
  loopinv int i: i >= 0 && imp(0 <= k && k < i, pure("reflect.Type.Field", elemOf(forType), k).Type != fieldType)
  ensures [index] {C25} r >= -1
  proves [found] {C25} imp(r >= 0, pure("reflect.Type.Field", elemOf(forType), r).Type == fieldType)
  proves [first] {C25} imp(r == -1 && 0 <= k && k < pure("reflect.Type.NumField", elemOf(forType)), pure("reflect.Type.Field", elemOf(forType), k).Type != fieldType)
define elemOf(t) = ite(pure("reflect.Type.Kind", t) == 22, pure("reflect.Type.Elem", t), t)
func makeEventsFromStruct(v, eventMatcher, injector) events
  mode abstract
  ensures [made] {C25} events != nil
  turn [registered] {C25} forall(e, MKEVENT, e.ev0 == v && e.ematch == eventMatcher && ite(e.ecb != nil, one(s, EV_SET) && forall(s, EV_SET, s.ek == e.ename && s.ev == e.ecb), none(s, EV_SET)))
  turn [event-methods] {C25} prior(f, FUNCOF, ite(pure("reflect.Type.Method", pure("(reflect.Value).Type", v), cur("int")).Type == f.fot, one(e, MKEVENT) && forall(e, MKEVENT, e.em0 == pure("reflect.Type.Method", pure("(reflect.Value).Type", v), cur("int"))), none(e, MKEVENT)))
  proves [instances] {C25} one(g, FIELDIDX, g.gft == nsConnType) && forall(g, FIELDIDX, imp(g.gft == nsConnType && g.gi >= 0, exists(s, EV_SET, s.ek == OnNamespaceConnect && s.eo == s.eo && runs(s.ev, c, m, one(p, VALUESET) && forall(p, VALUESET, p.vo == c && newCtl(v, injector, c, p.vv) && exists(f, RFIELD, f.rv == pure("(reflect.Value).Elem", p.vv) && f.ri == g.gi && last(exists(t, RSET, t.tv == f.rr && t.tx == pure("reflect.ValueOf", box(c)))))) && before(p, VALUESET, true, h, HANDLE, true) && before(t, RSET, t.tx == pure("reflect.ValueOf", box(c)), h, HANDLE, true) && count(h, HANDLE) <= 1 && forall(h, HANDLE, h.hns == c && same(h.hm, m) && res == h.herr) && imp(none(h, HANDLE), res == nil)))))
event EV_SET = mapset type:Events(eo, ek, ev, em)
func Struct.Events(s) r
  ensures [cached] {C25} r == s.events && r != nil && imp(old(s.events) != nil, r == old(s.events))
  proves [built] {C25} imp(old(s.events) == nil, one(m, MKEVENTS) && forall(m, MKEVENTS, m.kv == s.ptr && m.kmatch == s.eventMatcher && m.kinj == s.injector && m.kevents == r))
bounded C25 makeEventsFromStruct,getNonZeroFields,isZero,visitFields,resolveStructNamespace,NewStruct: controllers of three struct types (static, namespace method, NSConn field with exported and unexported fields), five event matchers, three connections with three events each, with and without an injector

# the matchers: methods with the prefix, under their own name or without the prefix
lemma prefix_matcher(p string, n string)
  call f = EventPrefixMatcher(p)
  call r, ok = f(n)
  ensures [prefix] {C25} ite(hasprefix(n, p), ok && r == n, !ok)

lemma trim_prefix_matcher(p string, n string)
  call f = EventTrimPrefixMatcher(p)
  call r, ok = f(n)
  ensures [trim] {C25} ite(hasprefix(n, p), ok && n == p + r, !ok)
