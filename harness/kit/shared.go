package kit

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	minievmapp "github.com/initia-labs/minievm/app"
)

// Shared is one chain reused by many cases: every case starts from the same
// height by rolling the store back to it, which is much cheaper than a new app.
type Shared struct {
	Opts Options
	// Setup writes to the committed state before the first case.
	Setup func(app *minievmapp.MinitiaApp, ctx sdk.Context)

	app  *minievmapp.MinitiaApp
	base int64
	busy bool
}

// Get gives the chain at its base height. Call Done at the end of a case which
// left no block half executed; otherwise the next case builds a new app.
func (s *Shared) Get() *minievmapp.MinitiaApp {
	// (rolling back many blocks overflows iavl's batch, which deadlocks on a MemDB)
	if s.app == nil || s.busy || s.app.LastBlockHeight() > s.base+40 {
		s.app = NewApp(s.Opts)
		if s.Setup != nil {
			s.Setup(s.app, Ctx(s.app))
		}
		Block(s.app, nil)
		s.base = s.app.LastBlockHeight()
	} else {
		if err := s.app.CommitMultiStore().RollbackToVersion(s.base); err != nil {
			panic(err)
		}
	}
	s.busy = true
	// an empty block resets the check state as well
	Block(s.app, nil)
	return s.app
}

// Done marks the current case as finished.
func (s *Shared) Done() { s.busy = false }
