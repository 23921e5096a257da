package history

import (
	"testing"

	"pgregory.net/rapid"

	"github.com/initia-labs/minievm/verifh/kit"
)

// TestHistories only runs histories.
func TestHistories(t *testing.T) {
	kit.Run(t, "any", func(rt *rapid.T, c *kit.Case) {
		app := kit.NewApp(Options())
		h := New(c)
		txs := h.Setup(app)
		for i := 0; i < 8; i++ {
			h.Record(txs, kit.Block(app, Bytes(txs)))
			txs = h.Draw(rt, app, 6)
		}
		c.NonTrivial()
		if t.Failed() || c.Trace() != "" && testing.Verbose() {
			t.Log(c.Trace())
		}
	})
}
