// Package d04 decides property D04: queued and stored messages are never lost,
// duplicated or reordered.
package d04

import (
	"testing"

	"verif/dbkit"
	"verif/vt"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var weights = map[string]int{"addNym": 1, "addContact": 2, "removeContact": 1, "addMessage": 8, "readMessage": 1, "delMessage": 1,
	"queue": 8, "envelope": 4, "resend": 3, "retract": 2, "send": 4, "clearResend": 2,
	"addIn": 7, "setIn": 4, "delIn": 2, "deliver": 4, "reopen": 1, "fault": 12, "rekey": 1, "vacuum": 1, "bad": 1, "delNym": 1}

func TestQueues(t *testing.T) {
	vt.Check(t, "random operation sequences on several users' messages and queues, every query compared with a reference model after every operation, queues drained at the end; non-trivial: at least 3 messages queued, one sent or retracted and one delivered", 60, 1500, func(rt *rapid.T, c *vt.Case) {
		m := dbkit.New(rt, c)
		defer m.Close()
		for i := 0; i < 2; i++ {
			m.Step(map[string]int{"addNym": 1})
		}
		for i := 0; i < 3; i++ {
			m.Step(map[string]int{"addContact": 1})
		}
		n := 20 + vt.Uniform(rt, 50, "ops")
		for i := 0; i < n; i++ {
			m.Step(weights)
		}
		m.Drain()
		if m.Done("queue") >= 3 && m.Done("send")+m.Done("retract") > 0 && m.Done("deliver") > 0 {
			c.NonTrivial(m.History())
		}
		c.Sample("%s", m.History())
	})
}
