# ---- message.go : wire format (C01, C02, C03, C04, C11, C26, C27) ----

# a request token as this library makes them: no separator, not a connection id, no exchange marker in second place
define plainToken(w) = !contains(w, ";") && !hasprefix(w, "neffos(0x") && imp(len(w) > 2, w[1] != '!')
define plainField(s) = !contains(s, "@%!")
define matches(e, text) = errtext(e) == text || implements(e, "interface{ResolveError(errorText string) bool}") && pure("interface{ResolveError(errorText string) bool}.ResolveError", e, text)
define esc(s) = replaceall(s, ";", "@%!semicolon@%!")
define marked(w) = ite(len(w) < 2, "", w[:1] + "!" + w[1:])
define isNativeOut(m) = m.IsNative && m.wait == ""
define wireToken(m) = ite(m.FromExplicit != "", esc(m.FromExplicit), ite(m.FromStackExchange, marked(m.wait), m.wait))
define sendsError(m) = m.Err != nil && !typeis(m.Err, "reply")
define wireBody(m) = ite(m.Err == nil, str(m.Body), ite(typeis(m.Err, "reply"), str(unbox(m.Err, "reply").Body), errtext(m.Err)))
define wire(m) = wireToken(m) + ";" + esc(m.Namespace) + ";" + esc(m.Room) + ";" + esc(m.Event) + ";" + ite(sendsError(m), "1", "0") + ";" + ite(m.isNoOp, "1", "0") + ";" + wireBody(m)

nonnil knownErrors[]
class frozen Message.wait Message.Namespace Message.Room Message.Event Message.Body Message.Err Message.isError Message.isNoOp Message.isInvalid Message.from Message.FromExplicit Message.FromStackExchange Message.To Message.IsForced Message.IsLocal Message.IsNative Message.SetBinary
writer Message.wait Message.ClearWait
pure interface{ResolveError(errorText string) bool}.ResolveError
assumption errors given to RegisterKnownError are not nil, and their Error/ResolveError methods are deterministic

event LASTWAIT = add global.lastWait(p, d) n

func escape(s) r
  mode abstract
  ensures [escaped] {C01, C26} result == esc(s)

func unescape(s) r
  mode abstract
  ensures [unescaped] {C01, C26} result == replaceall(s, "@%!semicolon@%!", ";")

func resolveError(text) err
  mode abstract
  each nomatch: v in knownErrors: !matches(v, text)
  ensures [nonnil] {C02} err != nil
  ensures [match] {C02} matches(err, text)
  ensures [known] {C02} imp(isfresh(err), each("nomatch") && errtext(err) == text)

func RegisterKnownError(err)
  requires err != nil
  each other: v in old(knownErrors): v != err
  proves [registered] {C02} sameslice(knownErrors, old(knownErrors)) && some(i, len(knownErrors), knownErrors[i] == err) || each("other") && extends(knownErrors, old(knownErrors)) && knownErrors[len(knownErrors)-1] == err

func serializeMessage(m) out
  mode abstract
  requires !(m.FromExplicit != "" && m.wait != "")
  ensures [raw] {C04} imp(isNativeOut(m), str(out) == str(m.Body))
  proves [form] {C01, C02, C04, C27} imp(!isNativeOut(m), str(out) == wire(m))

func DeserializeMessage(typ, b, an, only) r
  mode abstract
  ensures [local-fields] {C01, C06} r.from == "" && r.To == "" && !r.IsForced && !r.IsLocal
  ensures [error-flag] {C02} r.isError == (r.Err != nil) && imp(r.Err != nil, len(r.Body) == 0)
  ensures [kind] {C01, C04} r.SetBinary == (typ == BinaryMessage)
  ensures [native-only-if-allowed] {C04} imp(r.IsNative, an && r.Event == OnNativeMessage)
  ensures [only-native] {C04} imp(only && len(b) > 0, !r.isInvalid && r.Event == OnNativeMessage && str(r.Body) == str(b) && r.wait == "" && r.Err == nil && r.Namespace == "" && r.Room == "" && r.IsNative == an)
  proves [native] {C04} imp(!only && an && len(b) > 0 && !splits(b, ";", 7), !r.isInvalid && r.IsNative && r.Event == OnNativeMessage && str(r.Body) == str(b) && r.wait == "" && r.Err == nil && r.Namespace == "" && r.Room == "" && !r.isNoOp)
  proves [malformed] {C03} imp(len(b) == 0 || !only && !an && !splits(b, ";", 7), r.isInvalid)
  ensures [malformed-empty] {C03} imp(r.isInvalid, r.wait == "" && r.Namespace == "" && r.Room == "" && r.Event == "" && len(r.Body) == 0 && r.Err == nil && !r.isNoOp && !r.IsNative && r.FromExplicit == "")
  proves [wellformed] {C01, C03} imp(len(b) > 0 && splits(b, ";", 7), !r.isInvalid)
  ensures [explicit] {C26, C27} imp(r.FromExplicit != "", r.wait == "" && !r.FromStackExchange)
  tags C01, C02, C03, C04

func genEmptyReplyToWait(wait) r
  mode abstract
  ensures [form] {C01, C12, C13} str(r) == wait + ";;;;;;"

lemma wire_roundtrip(m Message, typ MessageType, an bool)
  assume m.Err == nil && m.FromExplicit == "" && !m.FromStackExchange && !isNativeOut(m)
  assume plainToken(m.wait) && plainField(m.Namespace) && plainField(m.Room) && plainField(m.Event)
  call out = serializeMessage(m)
  call r = DeserializeMessage(typ, out, an, false)
  ensures [valid] {C01} !r.isInvalid
  ensures [token] {C01, C08, C09} r.wait == m.wait && r.FromExplicit == "" && !r.FromStackExchange
  ensures [namespace] {C01} r.Namespace == m.Namespace
  ensures [room] {C01} r.Room == m.Room
  ensures [event] {C01} r.Event == m.Event
  ensures [body] {C01} str(r.Body) == str(m.Body)
  ensures [noop] {C01} r.isNoOp == m.isNoOp
  ensures [noerr] {C01, C02} r.Err == nil && !r.isError
  ensures [kind] {C01} r.SetBinary == (typ == 2)

lemma error_roundtrip(m Message, typ MessageType, an bool)
  assume m.Err != nil && !typeis(m.Err, "reply") && errtext(m.Err) != "" && m.FromExplicit == "" && !m.FromStackExchange && !isNativeOut(m)
  assume plainToken(m.wait) && plainField(m.Namespace) && plainField(m.Room) && plainField(m.Event)
  call out = serializeMessage(m)
  call r = DeserializeMessage(typ, out, an, false)
  ensures [error] {C02} r.Err != nil && r.isError && matches(r.Err, errtext(m.Err))
  ensures [nobody] {C02} len(r.Body) == 0
  ensures [fields] {C02, C08} !r.isInvalid && r.wait == m.wait && r.Namespace == m.Namespace && r.Room == m.Room && r.Event == m.Event && r.isNoOp == m.isNoOp

lemma reply_roundtrip(m0 Message, b bytes, typ MessageType, an bool)
  call e = Reply(b)
  let m = with(m0, Err, e)
  assume m.FromExplicit == "" && !m.FromStackExchange && !isNativeOut(m)
  assume plainToken(m.wait) && plainField(m.Namespace) && plainField(m.Room) && plainField(m.Event)
  call out = serializeMessage(m)
  call r = DeserializeMessage(typ, out, an, false)
  ensures [body] {C02, C08} r.Err == nil && str(r.Body) == str(b)
  ensures [fields] {C02, C08} !r.isInvalid && r.wait == m.wait && r.Namespace == m.Namespace && r.Room == m.Room && r.Event == m.Event

# a reply or error answered under an exchange token, and an exchange request itself, keep their marker
lemma exchange_roundtrip(m Message, typ MessageType, an bool)
  assume m.Err == nil && m.FromExplicit == "" && m.FromStackExchange && !isNativeOut(m)
  assume plainToken(m.wait) && plainField(m.Namespace) && plainField(m.Room) && plainField(m.Event) && len(m.wait) >= 2 && !hasprefix(m.wait, "n") && m.wait[0] < 128
  call out = serializeMessage(m)
  call r = DeserializeMessage(typ, out, an, false)
  ensures [token] {C27} r.wait == m.wait && r.FromStackExchange && r.FromExplicit == "" && !r.isInvalid
  ensures [fields] {C27, C01} r.Namespace == m.Namespace && r.Room == m.Room && r.Event == m.Event && str(r.Body) == str(m.Body) && r.Err == nil && r.isNoOp == m.isNoOp

lemma exchange_error_roundtrip(m Message, typ MessageType, an bool)
  assume m.Err != nil && !typeis(m.Err, "reply") && errtext(m.Err) != "" && m.FromExplicit == "" && m.FromStackExchange && !isNativeOut(m)
  assume plainToken(m.wait) && plainField(m.Namespace) && plainField(m.Room) && plainField(m.Event) && len(m.wait) >= 2 && !hasprefix(m.wait, "n") && m.wait[0] < 128
  call out = serializeMessage(m)
  call r = DeserializeMessage(typ, out, an, false)
  ensures [token] {C27} r.wait == m.wait && r.FromStackExchange && r.FromExplicit == "" && !r.isInvalid && matches(r.Err, errtext(m.Err))

# a broadcast forwarded with the sender's connection id (escaped like any other field)
lemma explicit_roundtrip(m Message, typ MessageType, an bool)
  assume m.Err == nil && hasprefix(m.FromExplicit, "neffos(0x") && plainField(m.FromExplicit) && m.wait == "" && !m.IsNative
  assume plainField(m.Namespace) && plainField(m.Room) && plainField(m.Event)
  call out = serializeMessage(m)
  call r = DeserializeMessage(typ, out, an, false)
  ensures [sender] {C26, C06} r.FromExplicit == m.FromExplicit && r.wait == "" && !r.FromStackExchange && !r.isInvalid
  ensures [fields] {C26, C01} r.Namespace == m.Namespace && r.Room == m.Room && r.Event == m.Event && str(r.Body) == str(m.Body) && r.Err == nil && r.isNoOp == m.isNoOp

lemma emptyreply_roundtrip(w string, typ MessageType, an bool)
  assume plainToken(w)
  call out = genEmptyReplyToWait(w)
  call r = DeserializeMessage(typ, out, an, false)
  ensures [ok] {C12, C13, C01} !r.isInvalid && r.wait == w && r.Err == nil && !r.isError && r.Namespace == "" && r.Room == "" && r.Event == "" && len(r.Body) == 0 && !r.isNoOp && !r.FromStackExchange

# ---- tokens ----
func genWait(client) w
  mode abstract
  on LASTWAIT [step] {C11} d == 1
  proves [counter] {C11} one(a, LASTWAIT) && exists(a, LASTWAIT, w == ite(client, "$", "") + dec(a.n))
  ensures [clientmark] {C11, C09} iff(hasprefix(w, "$"), client)
  ensures [plain] {C01, C11} plainToken(w) && w != "" && !hasprefix(w, "n") && !hasprefix(w, "#") && w[0] < 128

func genWaitStackExchange(w) r
  proves [marked] {C27} r == marked(w)

lemma tokens_distinct(a uint64, b uint64)
  assume a != b
  ensures [distinct] {C11} dec(a) != dec(b) && "$" + dec(a) != "$" + dec(b) && "$" + dec(a) != dec(b) && dec(a) != "$" + dec(b)

lemma token_side(client bool, m *Message)
  call w = genWait(client)
  assume m != nil && m.wait == w
  call mine = Message.isReply(m, client)
  call other = Message.isReply(m, !client)
  call wc = Message.IsWait(m, client)
  ensures [side] {C11, C09} mine && !other && wc
