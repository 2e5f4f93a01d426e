package neffos

import "testing"

func nsUp(t *testing.T, p *raw, ns string) {
	t.Helper()
	p.send("$77;" + ns + ";;_OnNamespaceConnect;0;0;")
	p.expect("$77;;;;;;")
}

func roomUp(t *testing.T, p *raw, ns, room string) {
	t.Helper()
	p.send("$78;" + ns + ";" + room + ";_OnRoomJoin;0;0;")
	p.expect("$78;;;;;;")
}
