package world

import "testing"

func TestScenarioBytes(t *testing.T) {
	sc := &Scenario{Cfg: Config{Secret: "a\xffb", Allowed: []string{"\xfe", "ok", rawMark}}, Rounds: []*Round{{Ops: []*Op{{Body: []KV{{K: "k", V: "\xff\xfe"}}}}}}}
	c := clone(sc)
	if sc.Cfg.Secret != "a\xffb" || c.Cfg.Secret != "a\xffb" || c.Cfg.Allowed[0] != "\xfe" || c.Cfg.Allowed[1] != "ok" || c.Cfg.Allowed[2] != rawMark || c.Rounds[0].Ops[0].Body[0].V != "\xff\xfe" {
		t.Fatal(sc, c)
	}
}
