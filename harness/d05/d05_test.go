// Package d05 decides property D05: user IDs, contacts and accounts stay
// separate and are removed together.
package d05

import (
	"testing"

	"verif/dbkit"
	"verif/vt"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var weights = map[string]int{"addNym": 4, "delNym": 2, "upkeep": 2, "addContact": 6, "removeContact": 2, "addAccount": 5, "accountTime": 4,
	"addCache": 8, "removeCache": 5, "addMessage": 3, "queue": 2, "addIn": 2, "deliver": 1, "retract": 1, "value": 2, "reopen": 1, "fault": 12, "rekey": 1, "bad": 2}

func TestSeparation(t *testing.T) {
	vt.Check(t, "random operation sequences on user IDs, contacts, accounts, message ID caches, messages and settings, every query compared with a reference model after every operation; non-trivial: at least 2 user IDs, one deletion with data, and 5 entries of other kinds", 60, 1500, func(rt *rapid.T, c *vt.Case) {
		m := dbkit.New(rt, c)
		defer m.Close()
		for i := 0; i < 3; i++ {
			m.Step(map[string]int{"addNym": 1})
		}
		n := 20 + vt.Uniform(rt, 50, "ops")
		for i := 0; i < n; i++ {
			m.Step(weights)
		}
		m.Drain()
		if m.Done("delNym") > 0 && m.Done("addNym") > 1 && m.Done("addContact")+m.Done("addAccount")+m.Done("addCache") >= 5 {
			c.NonTrivial(m.History())
		}
		c.Sample("%s", m.History())
	})
}
