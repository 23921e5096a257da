From b4b3fae3728ffa9014d16f2d4055588d5ba308c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 01/44] fix: keep the reverted-to snapshot in the StateDB
 snapshot stack

Reverting to an inner snapshot dropped that snapshot from the stack although its
context stays current, so its writes were never committed.
---
 x/evm/state/statedb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 4eb7926..0e1faea 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -585,8 +585,9 @@ func (s *StateDB) RevertToSnapshot(i int) {
 	snap := s.snaps[i]
 	s.ctx = snap.ctx
 
-	// clear the snapshots after the given id
-	s.snaps = s.snaps[:i]
+	// clear the snapshots taken after the given id; the snapshot with the given id
+	// is the current context again, so it has to be kept for the commit.
+	s.snaps = s.snaps[:i+1]
 }
 
 // Prepare handles the preparatory steps for executing a state transition with.
-- 
2.43.0


From 3341b26c816300545e216474f7cbaee5e948eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 02/44] fix: key transient storage by contract address

Transient storage was keyed by slot only, so contracts called in one transaction
could read and overwrite each other's transient slots.
---
 x/evm/state/statedb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 0e1faea..48e6e86 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -540,14 +540,14 @@ func (s *StateDB) SetTransientState(addr common.Address, key, value common.Hash)
 		return
 	}
 
-	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, key[:]), value[:]); err != nil {
+	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, stateKey(addr, key)), value[:]); err != nil {
 		panic(err)
 	}
 }
 
 // GetTransientState gets transient storage for a given account.
 func (s *StateDB) GetTransientState(addr common.Address, key common.Hash) common.Hash {
-	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, key[:]))
+	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, stateKey(addr, key)))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return common.Hash{}
 	} else if err != nil {
-- 
2.43.0


From c7d26f601ddccfbb2d35694142b964bf6b9d7ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 03/44] fix: run precompiles on the current StateDB snapshot

Precompiles wrote to the context the EVM was created with, and cosmos messages were
collected in one list, so registrations and cosmos messages of a reverted frame
survived the revert. Run them on the current snapshot context and keep the requested
messages per snapshot.
---
 x/evm/keeper/context.go     |  7 ++++---
 x/evm/keeper/precompiles.go | 25 ++++++++++++++++++++-----
 x/evm/state/snapshot.go     | 16 ++++++++++++++++
 x/evm/state/statedb.go      |  5 +++++
 4 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index a010cd5..7b7f989 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -169,6 +169,9 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	if err != nil {
 		return ctx, nil, err
 	}
+
+	// set cosmos messages to context
+	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 	stateDB, err := k.NewStateDB(ctx, evm, fee)
 	if err != nil {
 		return ctx, nil, err
@@ -179,15 +182,13 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		ExtraEips: extraEIPs,
 	}
 
-	// set cosmos messages to context
-	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 	*evm = *vm.NewEVMWithPrecompiles(
 		blockContext,
 		txContext,
 		stateDB,
 		types.DefaultChainConfig(ctx),
 		vmConfig,
-		k.precompiles.toMap(ctx),
+		k.precompiles.toMap(stateDB),
 	)
 
 	if tracer != nil {
diff --git a/x/evm/keeper/precompiles.go b/x/evm/keeper/precompiles.go
index 5f7a39c..6829516 100644
--- a/x/evm/keeper/precompiles.go
+++ b/x/evm/keeper/precompiles.go
@@ -1,13 +1,12 @@
 package keeper
 
 import (
-	"context"
-
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/core/vm"
 
 	cosmosprecompile "github.com/initia-labs/minievm/x/evm/precompiles/cosmos"
 	erc20registryprecompile "github.com/initia-labs/minievm/x/evm/precompiles/erc20_registry"
+	evmstate "github.com/initia-labs/minievm/x/evm/state"
 	"github.com/initia-labs/minievm/x/evm/types"
 )
 
@@ -54,16 +53,32 @@ func (k *Keeper) loadPrecompiles() error {
 // precompiles is a list of precompiled contracts.
 type precompiles []precompile
 
-// toMap converts the precompiles to a map.
-func (ps precompiles) toMap(ctx context.Context) map[common.Address]vm.PrecompiledContract {
+// toMap converts the precompiles to a map. The precompiles are executed on the current
+// context of the given stateDB.
+func (ps precompiles) toMap(stateDB *evmstate.StateDB) map[common.Address]vm.PrecompiledContract {
 	m := make(map[common.Address]vm.PrecompiledContract)
 	for _, p := range ps {
-		m[p.addr] = p.contract.(types.WithContext).WithContext(ctx)
+		m[p.addr] = statePrecompile{PrecompiledContract: p.contract, stateDB: stateDB}
 	}
 
 	return m
 }
 
+var _ vm.ExtendedPrecompiledContract = statePrecompile{}
+
+// statePrecompile runs a precompiled contract on the current snapshot of the stateDB, so
+// its state changes are reverted and committed together with the calling frame.
+type statePrecompile struct {
+	vm.PrecompiledContract
+	stateDB *evmstate.StateDB
+}
+
+// ExtendedRun implements vm.ExtendedPrecompiledContract.
+func (p statePrecompile) ExtendedRun(caller vm.ContractRef, input []byte, suppliedGas uint64, readOnly bool) ([]byte, uint64, error) {
+	contract := p.PrecompiledContract.(types.WithContext).WithContext(p.stateDB.Context())
+	return contract.(vm.ExtendedPrecompiledContract).ExtendedRun(caller, input, suppliedGas, readOnly)
+}
+
 func (ps precompiles) toAddrs() []common.Address {
 	addrs := make([]common.Address, len(ps))
 	for i, p := range ps {
diff --git a/x/evm/state/snapshot.go b/x/evm/state/snapshot.go
index de8f266..081b003 100644
--- a/x/evm/state/snapshot.go
+++ b/x/evm/state/snapshot.go
@@ -2,8 +2,11 @@ package state
 
 import (
 	"context"
+	"slices"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
+
+	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 type Snapshot struct {
@@ -14,6 +17,19 @@ type Snapshot struct {
 func NewSnapshot(ctx context.Context) *Snapshot {
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	cacheCtx, commit := sdkCtx.CacheContext()
+
+	// cosmos messages requested after the snapshot are dropped if it is not committed
+	if messages, ok := sdkCtx.Value(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES).(*[]sdk.Msg); ok {
+		snapMessages := slices.Clone(*messages)
+		cacheCtx = cacheCtx.WithValue(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES, &snapMessages)
+
+		commitState := commit
+		commit = func() {
+			commitState()
+			*messages = snapMessages
+		}
+	}
+
 	return &Snapshot{
 		ctx:    cacheCtx,
 		commit: commit,
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 48e6e86..05e77a1 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -118,6 +118,11 @@ func NewStateDB(
 	return s, nil
 }
 
+// Context returns the context of the current snapshot
+func (s *StateDB) Context() sdk.Context {
+	return s.ctx
+}
+
 // AddBalance mint coins to the recipient
 func (s *StateDB) AddBalance(addr common.Address, amount *uint256.Int, _ tracing.BalanceChangeReason) {
 	if amount.IsZero() {
-- 
2.43.0


From c4675a1a344b990e13699a8e8bc2033c216b8baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 04/44] fix: report the empty code hash for contracts under
 construction

EXTCODEHASH of an existing contract without code returned zero, which means that the
account does not exist.
---
 x/evm/state/statedb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 05e77a1..19981ab 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -399,6 +399,11 @@ func (s *StateDB) GetCodeHash(addr common.Address) common.Hash {
 		return types.EmptyCodeHash
 	}
 
+	// the contract has no code yet if it is under construction
+	if len(cacc.CodeHash) == 0 {
+		return types.EmptyCodeHash
+	}
+
 	return common.BytesToHash(cacc.CodeHash)
 }
 
-- 
2.43.0


From a743faecebd93515bb4f8912ab134dc8c625025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 05/44] fix: charge the gas of EVM executions that fail with
 all gas used

---
 x/evm/keeper/context.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 7b7f989..3e6e0f8 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -262,11 +262,6 @@ func (k Keeper) EVMCallWithTracer(ctx context.Context, caller common.Address, co
 		value,
 	)
 
-	// evm sometimes return 0 gasRemaining, but it's not an out of gas error.
-	if gasRemaining == 0 && err != nil && err != vm.ErrOutOfGas {
-		return nil, nil, types.ErrEVMCallFailed.Wrap(err.Error())
-	}
-
 	// London enforced
 	gasUsed := types.CalGasUsed(gasBalance, gasRemaining, evm.StateDB.GetRefund())
 	sdkCtx.GasMeter().ConsumeGas(gasUsed, "EVM gas consumption")
@@ -364,11 +359,6 @@ func (k Keeper) EVMCreateWithTracer(ctx context.Context, caller common.Address,
 		)
 	}
 
-	// evm sometimes return 0 gasRemaining, but it's not an out of gas error.
-	if gasRemaining == 0 && err != nil && err != vm.ErrOutOfGas {
-		return nil, common.Address{}, nil, types.ErrEVMCreateFailed.Wrap(err.Error())
-	}
-
 	// London enforced
 	gasUsed := types.CalGasUsed(gasBalance, gasRemaining, evm.StateDB.GetRefund())
 	sdkCtx.GasMeter().ConsumeGas(gasUsed, "EVM gas consumption")
-- 
2.43.0


From 12b9285785330ed84234c7deda93e33710362301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 06/44] fix: call the fee token on a separate EVM to keep the
 return data of the running one

---
 x/evm/keeper/context.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 3e6e0f8..942478a 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -161,7 +161,12 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	}
 
 	evm := &vm.EVM{}
-	blockContext, err := k.buildBlockContext(ctx, evm, fee)
+
+	// the fee token is called by opcodes like BALANCE and by value transfers in the middle
+	// of an execution, so use a separate EVM to keep the return data buffer and the call
+	// depth of the running one.
+	tokenEVM := &vm.EVM{}
+	blockContext, err := k.buildBlockContext(ctx, tokenEVM, fee)
 	if err != nil {
 		return ctx, nil, err
 	}
@@ -172,7 +177,7 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 
 	// set cosmos messages to context
 	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
-	stateDB, err := k.NewStateDB(ctx, evm, fee)
+	stateDB, err := k.NewStateDB(ctx, tokenEVM, fee)
 	if err != nil {
 		return ctx, nil, err
 	}
@@ -190,6 +195,14 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		vmConfig,
 		k.precompiles.toMap(stateDB),
 	)
+	*tokenEVM = *vm.NewEVMWithPrecompiles(
+		blockContext,
+		txContext,
+		stateDB,
+		types.DefaultChainConfig(ctx),
+		vm.Config{ExtraEips: extraEIPs},
+		k.precompiles.toMap(stateDB),
+	)
 
 	if tracer != nil {
 		// register vm context to tracer
-- 
2.43.0


From d7ac53dbd5387b4b32123e08b4f2daf36aed2852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 07/44] fix: do not charge store gas for BLOCKHASH on top of
 the EVM gas

---
 x/evm/keeper/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 942478a..c103516 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -116,7 +116,8 @@ func (k Keeper) buildBlockContext(ctx context.Context, evm callableEVM, fee type
 			}
 		},
 		GetHash: func(n uint64) common.Hash {
-			bz, err := k.EVMBlockHashes.Get(sdkCtx, n)
+			// the opcode gas is charged by the EVM
+			bz, err := k.EVMBlockHashes.Get(sdkCtx.WithGasMeter(storetypes.NewInfiniteGasMeter()), n)
 			if err != nil {
 				return common.Hash{}
 			}
-- 
2.43.0


From ac1dcbaafbb399963d13e97bbf8fa0a761e60b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 08/44] fix: track block hashes under the height of their own
 block and prune all expired ones

---
 x/evm/abci.go          | 9 ++-------
 x/evm/keeper/keeper.go | 8 +++++---
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/x/evm/abci.go b/x/evm/abci.go
index 5a1b8db..a555012 100644
--- a/x/evm/abci.go
+++ b/x/evm/abci.go
@@ -13,11 +13,6 @@ import (
 // PreBlock track latest 256 block hashes
 func PreBlock(ctx sdk.Context, k *keeper.Keeper) (sdk.ResponsePreBlock, error) {
 	defer telemetry.ModuleMeasureSince(types.ModuleName, time.Now(), telemetry.MetricKeyEndBlocker)
-	height := uint64(ctx.BlockHeight())
-	if height <= 1 {
-		return sdk.ResponsePreBlock{}, nil
-	}
-
-	// current block header hash is created by the previous block, so we track it with height-1
-	return sdk.ResponsePreBlock{}, k.TrackBlockHash(ctx, height-1, common.BytesToHash(ctx.HeaderHash()))
+	// the header hash of the context is the hash of the current block
+	return sdk.ResponsePreBlock{}, k.TrackBlockHash(ctx, uint64(ctx.BlockHeight()), common.BytesToHash(ctx.HeaderHash()))
 }
diff --git a/x/evm/keeper/keeper.go b/x/evm/keeper/keeper.go
index 07e12b6..7ef52a0 100644
--- a/x/evm/keeper/keeper.go
+++ b/x/evm/keeper/keeper.go
@@ -277,9 +277,11 @@ func (k Keeper) TrackBlockHash(ctx context.Context, blockHeight uint64, hash com
 		return err
 	}
 
-	// keep all block hashes if `NumRetainBlockHashes` is 0
-	if num != 0 && blockHeight > num {
-		err := k.EVMBlockHashes.Remove(ctx, blockHeight-num)
+	// keep all block hashes if `NumRetainBlockHashes` is 0,
+	// else keep the last `num` blocks before the given block.
+	if num != 0 && blockHeight > num+1 {
+		// the retention could have been reduced, so remove all the older ones
+		err := k.EVMBlockHashes.Clear(ctx, new(collections.Range[uint64]).EndExclusive(blockHeight-num))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From facba71095872bec59c01f121ad39f5abfe460d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 09/44] fix: do not enable the verkle gas rules, which let a
 frame underflow its gas

---
 x/evm/keeper/context.go     | 11 ++++++++++-
 x/evm/types/chain_config.go |  5 +++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index c103516..109e4ea 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -149,6 +149,15 @@ func (k Keeper) buildTxContext(ctx context.Context, caller common.Address, fee t
 	}, nil
 }
 
+// tokenStateDB is the StateDB of the fee token calls made on behalf of a running execution.
+// They are not charged to that execution, so they must not give gas refunds to it either.
+type tokenStateDB struct {
+	*evmstate.StateDB
+}
+
+func (tokenStateDB) AddRefund(uint64) {}
+func (tokenStateDB) SubRefund(uint64) {}
+
 // createEVM creates a new EVM instance.
 func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tracing.Hooks) (context.Context, *vm.EVM, error) {
 	extraEIPs, err := k.ExtraEIPs(ctx)
@@ -199,7 +208,7 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	*tokenEVM = *vm.NewEVMWithPrecompiles(
 		blockContext,
 		txContext,
-		stateDB,
+		tokenStateDB{stateDB},
 		types.DefaultChainConfig(ctx),
 		vm.Config{ExtraEips: extraEIPs},
 		k.precompiles.toMap(stateDB),
diff --git a/x/evm/types/chain_config.go b/x/evm/types/chain_config.go
index df95593..298307c 100644
--- a/x/evm/types/chain_config.go
+++ b/x/evm/types/chain_config.go
@@ -32,7 +32,6 @@ func DefaultChainConfig(ctx context.Context) *params.ChainConfig {
 	shanghaiTime := uint64(0)
 	cancunTime := uint64(0)
 	pragueTime := uint64(0)
-	verkleTime := uint64(0)
 
 	return &params.ChainConfig{
 		ChainID:             chainID(ctx),
@@ -55,6 +54,8 @@ func DefaultChainConfig(ctx context.Context) *params.ChainConfig {
 		ShanghaiTime:        &shanghaiTime,
 		CancunTime:          &cancunTime,
 		PragueTime:          &pragueTime,
-		VerkleTime:          &verkleTime,
+		// The verkle rules (EIP-4762) of the interpreter subtract the code chunk cost without
+		// checking the remaining gas, so a frame given less gas than that gets unlimited gas.
+		VerkleTime: nil,
 	}
 }
-- 
2.43.0


From c6797b3df4816002a7e44391080020bb6829e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 10/44] fix: consume the sequence number of failed evm
 transactions

---
 app/ante/ante.go               |  2 ++
 app/ante/sigverify.go          | 25 ++++++++++++--
 app/app.go                     |  1 -
 app/posthandler/posthandler.go |  3 --
 app/posthandler/sequence.go    | 59 ----------------------------------
 x/evm/keeper/msg_server.go     | 43 +++++++++++++++++++++++--
 x/evm/types/keys.go            |  4 +++
 7 files changed, 69 insertions(+), 68 deletions(-)
 delete mode 100644 app/posthandler/sequence.go

diff --git a/app/ante/ante.go b/app/ante/ante.go
index 027611b..6130ac3 100644
--- a/app/ante/ante.go
+++ b/app/ante/ante.go
@@ -97,6 +97,7 @@ func NewAnteHandler(options HandlerOptions) (sdk.AnteHandler, error) {
 		ante.NewValidateSigCountDecorator(options.AccountKeeper),
 		ante.NewSigGasConsumeDecorator(options.AccountKeeper, sigGasConsumer),
 		NewSigVerificationDecorator(options.AccountKeeper, options.EVMKeeper, options.SignModeHandler),
+		NewSequenceTrackerDecorator(),
 		NewIncrementSequenceDecorator(options.AccountKeeper),
 		ibcante.NewRedundantRelayDecorator(options.IBCkeeper),
 		auctionante.NewAuctionDecorator(options.AuctionKeeper, options.TxEncoder, options.MevLane),
@@ -111,6 +112,7 @@ func CreateAnteHandlerForOPinit(ak ante.AccountKeeper, ek *evmkeeper.Keeper, sig
 		ante.NewValidateSigCountDecorator(ak),
 		ante.NewSigGasConsumeDecorator(ak, ante.DefaultSigVerificationGasConsumer),
 		NewSigVerificationDecorator(ak, ek, signModeHandler),
+		NewSequenceTrackerDecorator(),
 		NewIncrementSequenceDecorator(ak),
 	)
 }
diff --git a/app/ante/sigverify.go b/app/ante/sigverify.go
index 0b4a464..9538a5a 100644
--- a/app/ante/sigverify.go
+++ b/app/ante/sigverify.go
@@ -199,6 +199,18 @@ func consumeMultisignatureVerificationGas(
 	return nil
 }
 
+// SequenceTrackerDecorator adds a tracker of the accounts whose sequence number was incremented
+// by the ante handler for their evm messages to the context, see msgServerImpl of x/evm.
+type SequenceTrackerDecorator struct{}
+
+func NewSequenceTrackerDecorator() SequenceTrackerDecorator {
+	return SequenceTrackerDecorator{}
+}
+
+func (SequenceTrackerDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (sdk.Context, error) {
+	return next(ctx.WithValue(evmtypes.CONTEXT_KEY_SEQUENCE_INCREMENTED, map[string]bool{}), tx, simulate)
+}
+
 // IncrementSequenceDecorator handles incrementing sequences of all signers.
 // Use the IncrementSequenceDecorator decorator to prevent replay attacks. Note,
 // there is need to execute IncrementSequenceDecorator on RecheckTx since
@@ -210,7 +222,9 @@ func consumeMultisignatureVerificationGas(
 // client. It is recommended to instead use multiple messages in a tx.
 //
 // NOTE: When we execute evm messages, it whould handle sequence number increment internally,
-// so we need to decrease sequence number if it is used in EVM.
+// so we need to decrease sequence number if it is used in EVM. When the context has a tracker
+// (see SequenceTrackerDecorator), this is left to the evm message server; otherwise a failed
+// tx would not consume its sequence number because only the ante handler's writes survive.
 type IncrementSequenceDecorator struct {
 	ak authante.AccountKeeper
 }
@@ -244,9 +258,9 @@ func (isd IncrementSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, sim
 
 	// decrement sequence of all signers which is used in EVM
 	// when we execute evm messages, it whould handle sequence number increment.
-	//
-	// NOTE: Need to revert it if a tx failed. See ../posthandler/sequence.go
 	if simulate || ctx.ExecMode() == sdk.ExecModeFinalize {
+		tracker, tracked := ctx.Value(evmtypes.CONTEXT_KEY_SEQUENCE_INCREMENTED).(map[string]bool)
+
 		signerMap := make(map[string]bool)
 		for _, msg := range tx.GetMsgs() {
 			var caller string
@@ -271,6 +285,11 @@ func (isd IncrementSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, sim
 				return ctx, err
 			}
 
+			if tracked {
+				tracker[string(callerAccAddr)] = true
+				continue
+			}
+
 			acc := isd.ak.GetAccount(ctx, callerAccAddr)
 			if err := acc.SetSequence(acc.GetSequence() - 1); err != nil {
 				panic(err)
diff --git a/app/app.go b/app/app.go
index be76d43..c4f20e8 100644
--- a/app/app.go
+++ b/app/app.go
@@ -367,7 +367,6 @@ func (app *MinitiaApp) SetCheckTx(handler blockchecktx.CheckTx) {
 
 func (app *MinitiaApp) setPostHandler() {
 	app.SetPostHandler(posthandler.NewPostHandler(
-		app.AccountKeeper,
 		app.EVMKeeper,
 	))
 }
diff --git a/app/posthandler/posthandler.go b/app/posthandler/posthandler.go
index bd180e0..ec78649 100644
--- a/app/posthandler/posthandler.go
+++ b/app/posthandler/posthandler.go
@@ -5,18 +5,15 @@ import (
 
 	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
-	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
 
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 // NewPostHandler returns a new sdk.PostHandler that is composed of the sdk.ChainPostDecorators
 func NewPostHandler(
-	ak authante.AccountKeeper,
 	ek EVMKeeper,
 ) sdk.PostHandler {
 	return sdk.ChainPostDecorators(
-		NewSequenceIncrementDecorator(ak),
 		NewGasRefundDecorator(ek),
 	)
 }
diff --git a/app/posthandler/sequence.go b/app/posthandler/sequence.go
deleted file mode 100644
index aa79d46..0000000
--- a/app/posthandler/sequence.go
+++ /dev/null
@@ -1,59 +0,0 @@
-package posthandler
-
-import (
-	sdk "github.com/cosmos/cosmos-sdk/types"
-	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
-)
-
-var _ sdk.PostDecorator = &SequenceIncrementDecorator{}
-
-type SequenceIncrementDecorator struct {
-	ak authante.AccountKeeper
-}
-
-func NewSequenceIncrementDecorator(ak authante.AccountKeeper) sdk.PostDecorator {
-	return &SequenceIncrementDecorator{
-		ak,
-	}
-}
-
-// If a transaction fails, we need to revert the sequence decrement for EVM messages that were executed in the ante handler.
-// This is necessary because the sequence increment in EVM was reverted due to the failure.
-func (sid *SequenceIncrementDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate, success bool, next sdk.PostHandler) (newCtx sdk.Context, err error) {
-	if !success && ctx.ExecMode() == sdk.ExecModeFinalize {
-		signerMap := make(map[string]bool)
-		for _, msg := range tx.GetMsgs() {
-			var caller string
-			switch msg := msg.(type) {
-			case *evmtypes.MsgCreate:
-				caller = msg.Sender
-			case *evmtypes.MsgCreate2:
-				caller = msg.Sender
-			case *evmtypes.MsgCall:
-				caller = msg.Sender
-			default:
-				continue
-			}
-
-			if _, ok := signerMap[caller]; ok {
-				continue
-			}
-			signerMap[caller] = true
-
-			callerAccAddr, err := sid.ak.AddressCodec().StringToBytes(caller)
-			if err != nil {
-				return ctx, err
-			}
-
-			acc := sid.ak.GetAccount(ctx, callerAccAddr)
-			if err := acc.SetSequence(acc.GetSequence() + 1); err != nil {
-				panic(err)
-			}
-
-			sid.ak.SetAccount(ctx, acc)
-		}
-	}
-
-	return next(ctx, tx, simulate, success)
-}
diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 26dffd4..c1a5792 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"bytes"
 	"context"
 	"errors"
 
@@ -36,6 +37,13 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 	if err != nil {
 		return nil, err
 	}
+
+	// evm increases the nonce of the caller at Create
+	if ms.takeIncrementedNonce(ctx, sender) && bytes.Equal(caller.Bytes(), sender) {
+		if err := ms.decreaseNonce(ctx, sender); err != nil {
+			return nil, err
+		}
+	}
 	if len(msg.Code) == 0 {
 		return nil, sdkerrors.ErrInvalidRequest.Wrap("empty code bytes")
 	}
@@ -95,6 +103,13 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	if err != nil {
 		return nil, err
 	}
+
+	// evm increases the nonce of the caller at Create
+	if ms.takeIncrementedNonce(ctx, sender) && bytes.Equal(caller.Bytes(), sender) {
+		if err := ms.decreaseNonce(ctx, sender); err != nil {
+			return nil, err
+		}
+	}
 	if len(msg.Code) == 0 {
 		return nil, sdkerrors.ErrInvalidRequest.Wrap("empty code bytes")
 	}
@@ -155,6 +170,28 @@ func (ms *msgServerImpl) increaseNonce(ctx context.Context, caller sdk.AccAddres
 	return nil
 }
 
+// decreaseNonce decreases the nonce of the given account.
+func (ms *msgServerImpl) decreaseNonce(ctx context.Context, caller sdk.AccAddress) error {
+	senderAcc := ms.accountKeeper.GetAccount(ctx, caller)
+	if err := senderAcc.SetSequence(senderAcc.GetSequence() - 1); err != nil {
+		return err
+	}
+	ms.accountKeeper.SetAccount(ctx, senderAcc)
+	return nil
+}
+
+// takeIncrementedNonce returns true if the ante handler already increased the nonce
+// of the given account for this message.
+func (ms *msgServerImpl) takeIncrementedNonce(ctx context.Context, caller sdk.AccAddress) bool {
+	tracker, ok := sdk.UnwrapSDKContext(ctx).Value(types.CONTEXT_KEY_SEQUENCE_INCREMENTED).(map[string]bool)
+	if !ok || !tracker[string(caller)] {
+		return false
+	}
+
+	delete(tracker, string(caller))
+	return true
+}
+
 // Call implements types.MsgServer.
 func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.MsgCallResponse, error) {
 	sender, err := ms.ac.StringToBytes(msg.Sender)
@@ -165,8 +202,10 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 	// increase nonce before execution like evm does
 	//
 	// NOTE: evm only increases nonce at Call not Create, so we should do the same.
-	if err := ms.increaseNonce(ctx, sender); err != nil {
-		return nil, err
+	if !ms.takeIncrementedNonce(ctx, sender) {
+		if err := ms.increaseNonce(ctx, sender); err != nil {
+			return nil, err
+		}
 	}
 
 	contractAddr, err := types.ContractAddressFromString(ms.ac, msg.ContractAddr)
diff --git a/x/evm/types/keys.go b/x/evm/types/keys.go
index 8c6aa2b..7acfd20 100644
--- a/x/evm/types/keys.go
+++ b/x/evm/types/keys.go
@@ -51,4 +51,8 @@ type ContextKey int
 const (
 	// CONTEXT_KEY_COSMOS_MESSAGES is a context key for cosmos messages
 	CONTEXT_KEY_COSMOS_MESSAGES ContextKey = iota
+
+	// CONTEXT_KEY_SEQUENCE_INCREMENTED is a context key for the accounts whose sequence number
+	// was incremented by the ante handler for their next evm message
+	CONTEXT_KEY_SEQUENCE_INCREMENTED
 )
-- 
2.43.0


From ab4250c37f4a5a6f9d8748cf7a004e83312f3f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 11/44] fix: accept a wrapped ethereum tx only when its
 signature covers the fee, value and access list

Cosmos txs which omit the public key or value, or which are of another message
type, are no wrapped ethereum txs; they made the conversion panic or give a
contract creation.
---
 x/evm/keeper/txutils.go | 58 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 81d526a..78200f0 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -47,6 +47,18 @@ func computeGasFeeAmount(gasFeeCap *big.Int, gas uint64, decimals uint8) *big.In
 	return new(big.Int).Add(gasFeeAmount, big.NewInt(1))
 }
 
+// convertToEtherValue converts the value of a message to wei. It returns false
+// if the value is not the one ConvertEthereumTxToCosmosTx makes of any wei value.
+func convertToEtherValue(decimals uint8, value math.Int) (*big.Int, bool) {
+	if value.IsNil() || value.IsNegative() {
+		return nil, false
+	}
+
+	amount := value.BigInt()
+	etherValue := types.ToEthersUint(decimals, amount)
+	return etherValue, types.FromEthersUnit(decimals, etherValue).Cmp(amount) == 0
+}
+
 func (u *TxUtils) ConvertEthereumTxToCosmosTx(ctx context.Context, ethTx *coretypes.Transaction) (sdk.Tx, error) {
 	params, err := u.Params.Get(ctx)
 	if err != nil {
@@ -71,16 +83,27 @@ func (u *TxUtils) ConvertEthereumTxToCosmosTx(ctx context.Context, ethTx *corety
 	// convert gas fee unit from wei to cosmos fee unit
 	gasLimit := ethTx.Gas()
 	gasFeeAmount := computeGasFeeAmount(gasFeeCap, gasLimit, decimals)
-	feeAmount := sdk.NewCoins(sdk.NewCoin(params.FeeDenom, math.NewIntFromBigInt(gasFeeAmount)))
 
 	// convert value unit from wei to cosmos fee unit
 	value := types.FromEthersUnit(decimals, ethTx.Value())
 
+	// cosmos amounts cannot hold more than 256 bits
+	if gasFeeAmount.BitLen() > math.MaxBitLen || value.BitLen() > math.MaxBitLen {
+		return nil, types.ErrInvalidValue.Wrap("fee or value is out of range")
+	}
+
 	// check if the value is correctly converted without dropping any precision
 	if types.ToEthersUint(decimals, value).Cmp(ethTx.Value()) != 0 {
 		return nil, types.ErrInvalidValue.Wrap("failed to convert value to token unit without dropping precision")
 	}
 
+	feeAmount := sdk.NewCoins(sdk.NewCoin(feeDenom, math.NewIntFromBigInt(gasFeeAmount)))
+
+	// signatures without chain id protection cannot be restored from a cosmos tx
+	if !ethTx.Protected() {
+		return nil, sdkerrors.ErrorInvalidSigner.Wrap("tx without replay protection is not supported")
+	}
+
 	// signer
 	chainID := sdk.UnwrapSDKContext(ctx).ChainID()
 	ethChainID := types.ConvertCosmosChainIDToEthereumChainID(chainID)
@@ -225,17 +248,17 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		return nil, nil, err
 	}
 
-	if len(fees) > 0 && fees[0].Denom != params.FeeDenom {
-		return nil, nil, nil
-	}
-
 	var tx *coretypes.Transaction
 
 	msg := msgs[0]
 	gas := authTx.GetGas()
 	typeUrl := sdk.MsgTypeURL(msg)
 
+	// the public key can be omitted
 	sig := sigs[0]
+	if sig.PubKey == nil {
+		return nil, nil, nil
+	}
 	cosmosSender := sig.PubKey.Address()
 	if len(cosmosSender.Bytes()) != common.AddressLength {
 		return nil, nil, nil
@@ -262,13 +285,21 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	}
 
 	gasFeeCap, ok := new(big.Int).SetString(md.GasFeeCap, 10)
-	if !ok {
-		return nil, nil, err
+	if !ok || gasFeeCap.Sign() < 0 {
+		return nil, nil, nil
 	}
 
 	gasTipCap, ok := new(big.Int).SetString(md.GasTipCap, 10)
-	if !ok {
-		return nil, nil, err
+	if !ok || gasTipCap.Sign() < 0 {
+		return nil, nil, nil
+	}
+
+	// The ethereum signature covers the gas fee cap only, so the fee has to be
+	// the one which ConvertEthereumTxToCosmosTx derives from it.
+	gasFeeAmount := computeGasFeeAmount(gasFeeCap, gas, decimals)
+	if gasFeeAmount.BitLen() > math.MaxBitLen ||
+		!fees.Equal(sdk.NewCoins(sdk.NewCoin(params.FeeDenom, math.NewIntFromBigInt(gasFeeAmount)))) {
+		return nil, nil, nil
 	}
 
 	var to *common.Address
@@ -293,7 +324,10 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		// When ethereum tx is converted into cosmos tx by ConvertEthereumTxToCosmosTx,
 		// the value is converted to cosmos fee unit from wei.
 		// So we need to convert it back to wei to get original ethereum tx and verify signature.
-		value = types.ToEthersUint(decimals, callMsg.Value.BigInt())
+		value, ok = convertToEtherValue(decimals, callMsg.Value)
+		if !ok {
+			return nil, nil, nil
+		}
 		accessList = types.ConvertCosmosAccessListToEth(callMsg.AccessList)
 
 	case "/minievm.evm.v1.MsgCreate":
@@ -413,7 +447,11 @@ func (u *TxUtils) IsEthereumTx(ctx context.Context, sdkTx sdk.Tx) (bool, error)
 		return false, nil
 	}
 
+	// the public key can be omitted
 	sig := sigs[0]
+	if sig.PubKey == nil {
+		return false, nil
+	}
 	cosmosSender := sig.PubKey.Address()
 	if len(cosmosSender.Bytes()) != common.AddressLength {
 		return false, nil
-- 
2.43.0


From 3858171f850d51399b5b563e583d079228a221fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 12/44] fix: keep indexing a block when one of its txs cannot
 be converted

---
 indexer/abci.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index c8b6ef0..9f146d1 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -51,7 +51,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		ethTx, _, err := keeper.NewTxUtils(e.evmKeeper).ConvertCosmosTxToEthereumTx(sdkCtx, tx)
 		if err != nil {
 			e.logger.Error("failed to convert CosmosTx to EthTx", "err", err)
-			return err
+			continue
 		}
 		if ethTx == nil {
 			continue
-- 
2.43.0


From e358fb234e0a1a5d96369a73b6afc94cb1cca174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 13/44] fix: execute calls with the access list of the message

---
 x/evm/keeper/msg_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index c1a5792..6664a3c 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -227,7 +227,7 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 		return nil, types.ErrInvalidValue.Wrap("value is out of range")
 	}
 
-	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, nil)
+	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, types.ConvertCosmosAccessListToEth(msg.AccessList))
 	if err != nil {
 		return nil, types.ErrEVMCallFailed.Wrap(err.Error())
 	}
-- 
2.43.0


From 0553e2c29e09ec8837a2b6219b34ce27ba82bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 14/44] fix: do not convert other messages and legacy txs with
 an access list to ethereum txs

---
 x/evm/keeper/txutils.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 78200f0..e1e3898 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -340,10 +340,18 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		to = nil
 		input = data
 		// Same as above (MsgCall)
-		value = types.ToEthersUint(decimals, createMsg.Value.BigInt())
+		value, ok = convertToEtherValue(decimals, createMsg.Value)
+		if !ok {
+			return nil, nil, nil
+		}
 		accessList = types.ConvertCosmosAccessListToEth(createMsg.AccessList)
-	case "/minievm.evm.v1.MsgCreate2":
-		// create2 is not supported
+	default:
+		// MsgCreate2 and other messages are not supported
+		return nil, nil, nil
+	}
+
+	// a legacy tx has no access list, so its signature does not cover it
+	if md.Type == coretypes.LegacyTxType && len(accessList) != 0 {
 		return nil, nil, nil
 	}
 
-- 
2.43.0


From 0d5a5f047604fd8641456023c80a27ce7cabb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 15/44] fix: convert only txs signed by a well-formed ethereum
 key to ethereum txs

---
 x/evm/keeper/txutils.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index e1e3898..bcfd277 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -8,6 +8,7 @@ import (
 	"math/big"
 
 	"cosmossdk.io/math"
+	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 	"github.com/cosmos/cosmos-sdk/types/tx/signing"
@@ -204,6 +205,18 @@ func (u *TxUtils) ConvertEthereumTxToCosmosTx(ctx context.Context, ethTx *corety
 	return txBuilder.GetTx(), nil
 }
 
+// isEthPubKey returns whether the key is one that can sign ethereum transactions.
+// The address of a malformed key cannot be computed, so check its bytes too.
+func isEthPubKey(pubKey cryptotypes.PubKey) bool {
+	key, ok := pubKey.(*ethsecp256k1.PubKey)
+	if !ok {
+		return false
+	}
+
+	_, err := crypto.DecompressPubkey(key.Key)
+	return err == nil
+}
+
 type metadata struct {
 	Type      uint8  `json:"type"`
 	GasFeeCap string `json:"gas_fee_cap"`
@@ -254,9 +267,9 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	gas := authTx.GetGas()
 	typeUrl := sdk.MsgTypeURL(msg)
 
-	// the public key can be omitted
+	// the public key can be omitted or of another kind
 	sig := sigs[0]
-	if sig.PubKey == nil {
+	if !isEthPubKey(sig.PubKey) {
 		return nil, nil, nil
 	}
 	cosmosSender := sig.PubKey.Address()
@@ -455,9 +468,9 @@ func (u *TxUtils) IsEthereumTx(ctx context.Context, sdkTx sdk.Tx) (bool, error)
 		return false, nil
 	}
 
-	// the public key can be omitted
+	// the public key can be omitted or of another kind
 	sig := sigs[0]
-	if sig.PubKey == nil {
+	if !isEthPubKey(sig.PubKey) {
 		return false, nil
 	}
 	cosmosSender := sig.PubKey.Address()
-- 
2.43.0


From 35a99ebcb85163f8f5bdd2402f146e0c249f915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 16/44] fix: stop iterating all balances when the callback asks
 to

---
 x/bank/keeper/view.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/bank/keeper/view.go b/x/bank/keeper/view.go
index c7fdd6f..cc02c0e 100644
--- a/x/bank/keeper/view.go
+++ b/x/bank/keeper/view.go
@@ -134,14 +134,16 @@ func (k EVMViewKeeper) IterateAccountBalances(ctx context.Context, addr sdk.AccA
 func (k EVMViewKeeper) IterateAllBalances(ctx context.Context, cb func(sdk.AccAddress, sdk.Coin) bool) {
 	k.ak.IterateAccounts(ctx, func(account sdk.AccountI) bool {
 		addr := account.GetAddress()
+		stop := false
 		err := k.ek.IterateAccountBalances(ctx, addr, func(coin sdk.Coin) (bool, error) {
-			return cb(addr, coin), nil
+			stop = cb(addr, coin)
+			return stop, nil
 		})
 		if err != nil {
 			panic(err)
 		}
 
-		return false
+		return stop
 	})
 }
 
-- 
2.43.0


From 90cc3468936094fcb112fcb18930f80367a2521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 17/44] fix: count the balances of an account with a long
 address once

---
 x/bank/keeper/view.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/bank/keeper/view.go b/x/bank/keeper/view.go
index cc02c0e..1fdadee 100644
--- a/x/bank/keeper/view.go
+++ b/x/bank/keeper/view.go
@@ -12,6 +12,8 @@ import (
 	cosmoskeeper "github.com/cosmos/cosmos-sdk/x/bank/keeper"
 	"github.com/cosmos/cosmos-sdk/x/bank/types"
 
+	"github.com/ethereum/go-ethereum/common"
+
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
@@ -134,6 +136,11 @@ func (k EVMViewKeeper) IterateAccountBalances(ctx context.Context, addr sdk.AccA
 func (k EVMViewKeeper) IterateAllBalances(ctx context.Context, cb func(sdk.AccAddress, sdk.Coin) bool) {
 	k.ak.IterateAccounts(ctx, func(account sdk.AccountI) bool {
 		addr := account.GetAddress()
+		if len(addr) != common.AddressLength {
+			// the balances are held by the account of its EVM address
+			return false
+		}
+
 		stop := false
 		err := k.ek.IterateAccountBalances(ctx, addr, func(coin sdk.Coin) (bool, error) {
 			stop = cb(addr, coin)
-- 
2.43.0


From 3d29aaf49a2b5ad15ff37f7f047df3b450660955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 18/44] fix: send only the burned erc20 coin to the community
 pool

---
 x/evm/keeper/erc20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 813c143..7ef9ad7 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -66,7 +66,7 @@ func (k ERC20Keeper) BurnCoins(ctx context.Context, addr sdk.AccAddress, amount
 		// if a coin is not generated from 0x1, then send the coin to community pool
 		// because we don't have burn capability.
 		if types.IsERC20Denom(coin.Denom) {
-			if err := k.communityPoolKeeper.FundCommunityPool(ctx, amount, evmAddr.Bytes()); err != nil {
+			if err := k.communityPoolKeeper.FundCommunityPool(ctx, sdk.NewCoins(coin), evmAddr.Bytes()); err != nil {
 				return err
 			}
 
-- 
2.43.0


From 90df6f5fa43f76d6556b3e585cc750091fca4ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 19/44] fix: do not panic when a slot cleared by a value
 transfer is set again

---
 x/evm/state/statedb.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 19981ab..1e2b816 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -209,9 +209,9 @@ func (s *StateDB) SubRefund(gas uint64) {
 		panic(err)
 	}
 
-	if gas > refund {
-		panic(fmt.Sprintf("Refund counter below zero (gas: %d > refund: %d)", gas, refund))
-	}
+	// the storage writes of fee token calls made on behalf of value transfers are not counted,
+	// so a slot they cleared can be set again without its refund having been added.
+	gas = min(gas, refund)
 
 	err = s.transientRefund.Set(s.ctx, s.execIndex, refund-gas)
 	if err != nil {
-- 
2.43.0


From 76557c3343c58818b0ad41e2c8f8b3ad6fcda4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:37 +0000
Subject: [PATCH 20/44] fix: precompiles are read-only in the frames below a
 static call

The EVM tells a precompiled contract only how it was called by its direct caller, so a
contract inside of a static call could register ERC20s and execute cosmos messages with an
ordinary call. Follow the frames of the execution to know the mode of the enclosing ones.
---
 x/evm/keeper/context.go     |  9 +++----
 x/evm/keeper/precompiles.go | 47 +++++++++++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 109e4ea..ac4600f 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -192,8 +192,9 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		return ctx, nil, err
 	}
 
+	frames, tokenFrames := &staticFrames{}, &staticFrames{}
 	vmConfig := vm.Config{
-		Tracer:    tracer,
+		Tracer:    frames.hooks(tracer),
 		ExtraEips: extraEIPs,
 	}
 
@@ -203,15 +204,15 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		stateDB,
 		types.DefaultChainConfig(ctx),
 		vmConfig,
-		k.precompiles.toMap(stateDB),
+		k.precompiles.toMap(stateDB, frames),
 	)
 	*tokenEVM = *vm.NewEVMWithPrecompiles(
 		blockContext,
 		txContext,
 		tokenStateDB{stateDB},
 		types.DefaultChainConfig(ctx),
-		vm.Config{ExtraEips: extraEIPs},
-		k.precompiles.toMap(stateDB),
+		vm.Config{Tracer: tokenFrames.hooks(nil), ExtraEips: extraEIPs},
+		k.precompiles.toMap(stateDB, tokenFrames),
 	)
 
 	if tracer != nil {
diff --git a/x/evm/keeper/precompiles.go b/x/evm/keeper/precompiles.go
index 6829516..dc8099e 100644
--- a/x/evm/keeper/precompiles.go
+++ b/x/evm/keeper/precompiles.go
@@ -1,7 +1,10 @@
 package keeper
 
 import (
+	"math/big"
+
 	"github.com/ethereum/go-ethereum/common"
+	"github.com/ethereum/go-ethereum/core/tracing"
 	"github.com/ethereum/go-ethereum/core/vm"
 
 	cosmosprecompile "github.com/initia-labs/minievm/x/evm/precompiles/cosmos"
@@ -54,11 +57,11 @@ func (k *Keeper) loadPrecompiles() error {
 type precompiles []precompile
 
 // toMap converts the precompiles to a map. The precompiles are executed on the current
-// context of the given stateDB.
-func (ps precompiles) toMap(stateDB *evmstate.StateDB) map[common.Address]vm.PrecompiledContract {
+// context of the given stateDB, in the mode of the given frames.
+func (ps precompiles) toMap(stateDB *evmstate.StateDB, frames *staticFrames) map[common.Address]vm.PrecompiledContract {
 	m := make(map[common.Address]vm.PrecompiledContract)
 	for _, p := range ps {
-		m[p.addr] = statePrecompile{PrecompiledContract: p.contract, stateDB: stateDB}
+		m[p.addr] = statePrecompile{PrecompiledContract: p.contract, stateDB: stateDB, frames: frames}
 	}
 
 	return m
@@ -71,12 +74,13 @@ var _ vm.ExtendedPrecompiledContract = statePrecompile{}
 type statePrecompile struct {
 	vm.PrecompiledContract
 	stateDB *evmstate.StateDB
+	frames  *staticFrames
 }
 
 // ExtendedRun implements vm.ExtendedPrecompiledContract.
 func (p statePrecompile) ExtendedRun(caller vm.ContractRef, input []byte, suppliedGas uint64, readOnly bool) ([]byte, uint64, error) {
 	contract := p.PrecompiledContract.(types.WithContext).WithContext(p.stateDB.Context())
-	return contract.(vm.ExtendedPrecompiledContract).ExtendedRun(caller, input, suppliedGas, readOnly)
+	return contract.(vm.ExtendedPrecompiledContract).ExtendedRun(caller, input, suppliedGas, readOnly || p.frames.static)
 }
 
 func (ps precompiles) toAddrs() []common.Address {
@@ -87,3 +91,38 @@ func (ps precompiles) toAddrs() []common.Address {
 
 	return addrs
 }
+
+// staticFrames follows the frames of an execution to know whether it is inside of a static
+// call. The EVM only tells a precompiled contract how it was called by its direct caller.
+type staticFrames struct {
+	static bool
+	depth  int
+}
+
+// hooks returns the given hooks (can be nil) which also follow the frames.
+func (f *staticFrames) hooks(tracer *tracing.Hooks) *tracing.Hooks {
+	hooks := tracing.Hooks{}
+	if tracer != nil {
+		hooks = *tracer
+	}
+
+	onEnter, onExit := hooks.OnEnter, hooks.OnExit
+	hooks.OnEnter = func(depth int, typ byte, from common.Address, to common.Address, input []byte, gas uint64, value *big.Int) {
+		if !f.static && vm.OpCode(typ) == vm.STATICCALL {
+			f.static, f.depth = true, depth
+		}
+		if onEnter != nil {
+			onEnter(depth, typ, from, to, input, gas, value)
+		}
+	}
+	hooks.OnExit = func(depth int, output []byte, gasUsed uint64, err error, reverted bool) {
+		if f.static && f.depth == depth {
+			f.static = false
+		}
+		if onExit != nil {
+			onExit(depth, output, gasUsed, err, reverted)
+		}
+	}
+
+	return &hooks
+}
-- 
2.43.0


From d1d44d0634bf1ce83b1d49319589212a0fe99ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 21/44] fix: cosmos queries of the precompile do not share
 their messages

A request that failed to decode stayed in the shared message and was merged into the next
query of any contract, and concurrent queries raced on it, so answers depended on what a node
had served before.
---
 x/evm/types/query_cosmos.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x/evm/types/query_cosmos.go b/x/evm/types/query_cosmos.go
index 86210ec..43b0285 100644
--- a/x/evm/types/query_cosmos.go
+++ b/x/evm/types/query_cosmos.go
@@ -34,6 +34,9 @@ func DefaultQueryCosmosWhitelist() QueryCosmosWhitelist {
 
 // ConvertProtoToJSON unmarshal the given bytes into a proto message and then marshals it to json.
 func ConvertProtoToJSON(cdc codec.Codec, protoResponse proto.Message, bz []byte) ([]byte, error) {
+	// the given message is shared by all queries
+	protoResponse = proto.Clone(protoResponse)
+
 	// unmarshal binary into stargate response data structure
 	err := cdc.Unmarshal(bz, protoResponse)
 	if err != nil {
@@ -45,11 +48,13 @@ func ConvertProtoToJSON(cdc codec.Codec, protoResponse proto.Message, bz []byte)
 		return nil, err
 	}
 
-	protoResponse.Reset()
 	return bz, nil
 }
 
 func ConvertJSONToProto(cdc codec.Codec, protoRequest proto.Message, bz []byte) ([]byte, error) {
+	// the given message is shared by all queries
+	protoRequest = proto.Clone(protoRequest)
+
 	// unmarshal binary into stargate response data structure
 	err := cdc.UnmarshalJSON(bz, protoRequest)
 	if err != nil {
@@ -61,6 +66,5 @@ func ConvertJSONToProto(cdc codec.Codec, protoRequest proto.Message, bz []byte)
 		return nil, err
 	}
 
-	protoRequest.Reset()
 	return bz, nil
 }
-- 
2.43.0


From aa945f80f9ce318dfdd44b2351995f1da41d11cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 22/44] fix: compare the addresses of allowed publishers, not
 their spelling

---
 x/evm/keeper/msg_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 6664a3c..e51c398 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -66,7 +66,7 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 	if len(params.AllowedPublishers) != 0 {
 		allowed := false
 		for _, publisher := range params.AllowedPublishers {
-			if msg.Sender == publisher {
+			if publisherAddr, err := ms.ac.StringToBytes(publisher); err == nil && bytes.Equal(publisherAddr, sender) {
 				allowed = true
 
 				break
@@ -132,7 +132,7 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	if len(params.AllowedPublishers) != 0 {
 		allowed := false
 		for _, publisher := range params.AllowedPublishers {
-			if msg.Sender == publisher {
+			if publisherAddr, err := ms.ac.StringToBytes(publisher); err == nil && bytes.Equal(publisherAddr, sender) {
 				allowed = true
 
 				break
-- 
2.43.0


From 5cb2f689b53eef2c0425284c32ff685132205cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 23/44] fix: refuse nft token ids outside of uint256 instead of
 wrapping them

---
 x/evm/types/collection.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/evm/types/collection.go b/x/evm/types/collection.go
index 99a6a61..ccbc9d7 100644
--- a/x/evm/types/collection.go
+++ b/x/evm/types/collection.go
@@ -27,7 +27,12 @@ func TokenIdToBigInt(classId string, tokenId string) (*big.Int, bool) {
 		hash.Write([]byte(tokenId))
 		return new(big.Int).SetBytes(hash.Sum(nil)), true
 	}
-	return new(big.Int).SetString(tokenId, 10)
+	intTokenId, ok := new(big.Int).SetString(tokenId, 10)
+	if !ok || intTokenId.Sign() < 0 || intTokenId.BitLen() > 256 {
+		// the abi encoding would wrap it to the id of another token
+		return nil, false
+	}
+	return intTokenId, true
 }
 
 func ContractAddressFromClassId(ctx context.Context, k ERC721ClassIdKeeper, classId string) (common.Address, error) {
-- 
2.43.0


From 4fed3398bdcc6a240abba5a1bb6b332fb7ebf543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 24/44] fix: report the contract address in the erc721 created
 event

---
 x/evm/keeper/erc721.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/erc721.go b/x/evm/keeper/erc721.go
index cd184a3..0ba158a 100644
--- a/x/evm/keeper/erc721.go
+++ b/x/evm/keeper/erc721.go
@@ -59,7 +59,7 @@ func (k ERC721Keeper) CreateOrUpdateClass(ctx context.Context, classId, classUri
 			return types.ErrFailedToPackABI.Wrap(err.Error())
 		}
 
-		ret, contractAddr, _, err := k.EVMCreate(ctx, types.StdAddress, append(k.ERC721Bin, inputBz...), nil, nil)
+		_, contractAddr, _, err := k.EVMCreate(ctx, types.StdAddress, append(k.ERC721Bin, inputBz...), nil, nil)
 		if err != nil {
 			return err
 		}
@@ -79,7 +79,7 @@ func (k ERC721Keeper) CreateOrUpdateClass(ctx context.Context, classId, classUri
 			sdk.NewEvent(
 				types.EventTypeERC721Created,
 				sdk.NewAttribute(types.AttributeKeyClassId, classId),
-				sdk.NewAttribute(types.AttributeKeyContract, hexutil.Encode(ret)),
+				sdk.NewAttribute(types.AttributeKeyContract, contractAddr.String()),
 			),
 		)
 	}
-- 
2.43.0


From cf931996b287079901d04f2433c8ee6949fa7983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:07 +0000
Subject: [PATCH 25/44] fix: exporting a chain failed because genutil is no
 module of the manager

---
 app/modules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/modules.go b/app/modules.go
index 1f21ae2..3760ba6 100644
--- a/app/modules.go
+++ b/app/modules.go
@@ -188,7 +188,7 @@ can do so safely.
 func orderInitBlockers() []string {
 	return []string{
 		capabilitytypes.ModuleName, authtypes.ModuleName, evmtypes.ModuleName, banktypes.ModuleName,
-		opchildtypes.ModuleName, genutiltypes.ModuleName, authz.ModuleName, group.ModuleName, crisistypes.ModuleName,
+		opchildtypes.ModuleName, authz.ModuleName, group.ModuleName, crisistypes.ModuleName,
 		upgradetypes.ModuleName, feegrant.ModuleName, consensusparamtypes.ModuleName, ibcexported.ModuleName,
 		ibctransfertypes.ModuleName, ibcnfttransfertypes.ModuleName, icatypes.ModuleName, icaauthtypes.ModuleName,
 		ibcfeetypes.ModuleName, auctiontypes.ModuleName, oracletypes.ModuleName, marketmaptypes.ModuleName,
-- 
2.43.0


From 6e98b6fdae285e8a02fab115cd2dc6fc22bf9df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:07 +0000
Subject: [PATCH 26/44] fix: importing an exported chain doubled every balance

---
 x/bank/keeper/send.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/x/bank/keeper/send.go b/x/bank/keeper/send.go
index edb8944..e088d7b 100644
--- a/x/bank/keeper/send.go
+++ b/x/bank/keeper/send.go
@@ -164,8 +164,24 @@ func (k EVMSendKeeper) SendCoins(ctx context.Context, fromAddr sdk.AccAddress, t
 
 // initBalances sets the balance (multiple coins) for an account by address.
 // An error is returned upon failure.
+//
+// The EVM state of an exported chain already contains the balances, so only the
+// coins which it does not contain are minted.
 func (k EVMSendKeeper) initBalances(ctx context.Context, addr sdk.AccAddress, balances sdk.Coins) error {
-	return k.ek.MintCoins(ctx, addr, balances)
+	missing := sdk.NewCoins()
+	for _, coin := range balances {
+		imported, err := k.ek.GetBalance(ctx, addr, coin.Denom)
+		if err != nil {
+			return err
+		}
+		if imported.GT(coin.Amount) {
+			return fmt.Errorf("the EVM state has %s%s of %s, more than the genesis balance %s", imported, coin.Denom, addr, coin)
+		}
+
+		missing = missing.Add(sdk.NewCoin(coin.Denom, coin.Amount.Sub(imported)))
+	}
+
+	return k.ek.MintCoins(ctx, addr, missing)
 }
 
 // IsSendEnabledCoins checks the coins provided and returns an ErrSendDisabled
-- 
2.43.0


From dbcd433352988553e944f736821ef156c92da85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:07 +0000
Subject: [PATCH 27/44] fix: exporting a token with zero supply made the
 genesis invalid

---
 x/bank/keeper/genesis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bank/keeper/genesis.go b/x/bank/keeper/genesis.go
index 46694df..5901a8d 100644
--- a/x/bank/keeper/genesis.go
+++ b/x/bank/keeper/genesis.go
@@ -54,7 +54,7 @@ func (k BaseKeeper) ExportGenesis(ctx context.Context) *types.GenesisState {
 	return types.NewGenesisState(
 		k.GetParams(ctx),
 		k.GetAccountsBalances(ctx),
-		totalSupply,
+		sdk.NewCoins(totalSupply...), // without the tokens which nobody holds
 		k.GetAllDenomMetaData(ctx),
 		k.GetAllSendEnabledEntries(ctx),
 	)
-- 
2.43.0


From 5a377c77375e38facf9f9758ab75a41d74e67976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 28/44] fix: disabling the kvindexer left the JSON-RPC without
 its indexer

---
 app/app.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/app.go b/app/app.go
index c4f20e8..ce906f7 100644
--- a/app/app.go
+++ b/app/app.go
@@ -251,9 +251,11 @@ func NewMinitiaApp(
 	// setup indexer
 	if evmIndexer, kvIndexerKeeper, kvIndexerModule, streamingManager, err := setupIndexer(app, appOpts, indexerDB, kvindexerDB); err != nil {
 		tmos.Exit(err.Error())
-	} else if kvIndexerKeeper != nil && kvIndexerModule != nil && streamingManager != nil {
+	} else {
 		// register kvindexer keeper and module, and register services.
-		app.SetKVIndexer(kvIndexerKeeper, kvIndexerModule)
+		if kvIndexerKeeper != nil && kvIndexerModule != nil {
+			app.SetKVIndexer(kvIndexerKeeper, kvIndexerModule)
+		}
 
 		// register evm indexer
 		app.SetEVMIndexer(evmIndexer)
-- 
2.43.0


From 98023133436b5903ebf1befef01c644faae6b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:50 +0000
Subject: [PATCH 29/44] fix: transactions rejected by the ante handler were
 indexed

---
 indexer/abci.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 9f146d1..1508d83 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -42,6 +42,14 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 	ethTxs := make([]*coretypes.Transaction, 0, len(req.Txs))
 	receipts := make([]*coretypes.Receipt, 0, len(req.Txs))
 	for idx, txBytes := range req.Txs {
+		txResult := res.TxResults[idx]
+
+		// A tx without events has been rejected by the ante handler, so it is not executed;
+		// it may be even a replay of an executed tx, which must not be overwritten.
+		if txResult.Code != abci.CodeTypeOK && len(txResult.Events) == 0 {
+			continue
+		}
+
 		tx, err := e.txConfig.TxDecoder()(txBytes)
 		if err != nil {
 			e.logger.Error("failed to decode tx", "err", err)
@@ -57,7 +65,6 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 			continue
 		}
 
-		txResult := res.TxResults[idx]
 		txStatus := coretypes.ReceiptStatusSuccessful
 		if txResult.Code != abci.CodeTypeOK {
 			txStatus = coretypes.ReceiptStatusFailed
-- 
2.43.0


From dcedaa0ebd643cca478fbd9fc16220f2a27e744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 30/44] fix: transaction indexes, receipt types and log indexes
 were wrong in the index

---
 indexer/abci.go            | 23 +++++++++++++----------
 jsonrpc/backend/filters.go |  6 ++++--
 jsonrpc/backend/tx.go      |  3 +--
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 1508d83..389d0c7 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -84,7 +84,6 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		gasUsed := uint64(txResult.GasUsed)
 		cumulativeGasUsed += gasUsed
 
-		txIndex++
 		ethTxs = append(ethTxs, ethTx)
 
 		// extract logs and contract address from tx results
@@ -95,6 +94,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		receipt := coretypes.Receipt{
+			Type:              ethTx.Type(),
 			PostState:         nil,
 			Status:            txStatus,
 			CumulativeGasUsed: cumulativeGasUsed,
@@ -116,6 +116,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		receipts = append(receipts, &receipt)
+		txIndex++
 	}
 
 	chainId := types.ConvertCosmosChainIDToEthereumChainID(sdkCtx.ChainID())
@@ -155,10 +156,21 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 
 	blockHash := blockHeader.Hash()
 	blockLogs := make([][]*coretypes.Log, 0, len(ethTxs))
+	logIndex := uint(0)
 	for txIndex, ethTx := range ethTxs {
 		txHash := ethTx.Hash()
 		receipt := receipts[txIndex]
 
+		// fill in missing fields of the logs before storing and emitting
+		for _, log := range receipt.Logs {
+			log.Index = logIndex
+			log.BlockHash = blockHash
+			log.BlockNumber = uint64(blockHeight)
+			log.TxHash = txHash
+			log.TxIndex = uint(txIndex)
+			logIndex++
+		}
+
 		// store tx
 		rpcTx := rpctypes.NewRPCTransaction(ethTx, blockHash, uint64(blockHeight), uint64(receipt.TransactionIndex), chainId)
 		if err := e.TxMap.Set(sdkCtx, txHash.Bytes(), *rpcTx); err != nil {
@@ -177,15 +189,6 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		if len(e.logsChans) > 0 && len(receipt.Logs) > 0 {
-			for idx, log := range receipt.Logs {
-				// fill in missing fields before emitting
-				log.Index = uint(idx)
-				log.BlockHash = blockHash
-				log.BlockNumber = uint64(blockHeight)
-				log.TxHash = txHash
-				log.TxIndex = uint(txIndex)
-			}
-
 			blockLogs = append(blockLogs, receipt.Logs)
 		}
 	}
diff --git a/jsonrpc/backend/filters.go b/jsonrpc/backend/filters.go
index 98e2d53..90576b1 100644
--- a/jsonrpc/backend/filters.go
+++ b/jsonrpc/backend/filters.go
@@ -29,18 +29,20 @@ func (b *JSONRPCBackend) GetLogsByHeight(height uint64) ([]*coretypes.Log, error
 		return nil, err
 	}
 
+	logIndex := uint(0)
 	for _, tx := range txs {
 		receipt, err := b.app.EVMIndexer().TxReceiptByHash(queryCtx, tx.Hash)
 		if err != nil {
 			return nil, err
 		}
 		logs := receipt.Logs
-		for idx, log := range logs {
+		for _, log := range logs {
 			log.BlockHash = blockHeader.Hash()
 			log.BlockNumber = height
 			log.TxHash = tx.Hash
-			log.Index = uint(idx)
+			log.Index = logIndex
 			log.TxIndex = receipt.TransactionIndex
+			logIndex++
 		}
 		blockLogs = append(blockLogs, logs...)
 	}
diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index e7d4bcc..8cefeb9 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -433,8 +433,7 @@ func (b *JSONRPCBackend) GetBlockReceipts(ctx context.Context, blockNrOrHash rpc
 
 // marshalReceipt marshals a transaction receipt into a JSON object.
 func marshalReceipt(receipt *coretypes.Receipt, tx *rpctypes.RPCTransaction) map[string]interface{} {
-	for idx, log := range receipt.Logs {
-		log.Index = uint(idx)
+	for _, log := range receipt.Logs {
 		if tx.BlockHash != nil {
 			log.BlockHash = *tx.BlockHash
 		}
-- 
2.43.0


From 279494664f4e4227591fb019167803da95e4609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 31/44] fix: an index entry too big for the cache kept its
 block out of the index

---
 indexer/store.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/indexer/store.go b/indexer/store.go
index dee7636..9103782 100644
--- a/indexer/store.go
+++ b/indexer/store.go
@@ -78,9 +78,11 @@ func (c CacheStore) Set(key, value []byte) error {
 	storetypes.AssertValidKey(key)
 	storetypes.AssertValidValue(value)
 
-	err := c.cache.Set(string(key), value)
-	if err != nil {
-		return errors.Wrap(err, "failed to set cache")
+	// an entry can be too big for the cache; drop the stale one then
+	if err := c.cache.Set(string(key), value); err != nil {
+		if err := c.cache.Delete(string(key)); err != nil && !errors.IsOf(err, bigcache.ErrEntryNotFound) {
+			return errors.Wrap(err, "failed to set cache")
+		}
 	}
 	c.store.Set(key, value)
 
@@ -92,7 +94,7 @@ func (c CacheStore) Delete(key []byte) error {
 	storetypes.AssertValidKey(key)
 
 	err := c.cache.Delete(string(key))
-	if err != nil && errors.IsOf(err, bigcache.ErrEntryNotFound) {
+	if err != nil && !errors.IsOf(err, bigcache.ErrEntryNotFound) {
 		return errors.Wrap(err, "failed to delete cache")
 	}
 	c.store.Delete(key)
-- 
2.43.0


From 9e4e02dbcdb4a12e52a662d75f35dac52abb0efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 32/44] fix: watching pending transactions made the mempool
 refuse some

---
 indexer/mempool.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/indexer/mempool.go b/indexer/mempool.go
index 87a4848..6fb47fa 100644
--- a/indexer/mempool.go
+++ b/indexer/mempool.go
@@ -3,6 +3,8 @@ package indexer
 import (
 	"context"
 
+	storetypes "cosmossdk.io/store/types"
+
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/cosmos/cosmos-sdk/types/mempool"
 	"github.com/ethereum/go-ethereum/common"
@@ -31,15 +33,15 @@ func (m *MempoolWrapper) CountTx() int {
 // Insert implements mempool.Mempool.
 func (m *MempoolWrapper) Insert(ctx context.Context, tx sdk.Tx) error {
 	if len(m.indexer.pendingChans) > 0 {
+		// the conversion is not part of the tx, so it must not consume the gas of
+		// the tx nor make the mempool refuse it.
+		sdkCtx := sdk.UnwrapSDKContext(ctx).WithGasMeter(storetypes.NewInfiniteGasMeter())
+
 		txUtils := evmkeeper.NewTxUtils(m.indexer.evmKeeper)
-		ethTx, _, err := txUtils.ConvertCosmosTxToEthereumTx(ctx, tx)
+		ethTx, _, err := txUtils.ConvertCosmosTxToEthereumTx(sdkCtx, tx)
 		if err != nil {
 			m.indexer.logger.Error("failed to convert CosmosTx to EthTx", "err", err)
-			return err
-		}
-
-		if ethTx != nil {
-			sdkCtx := sdk.UnwrapSDKContext(ctx)
+		} else if ethTx != nil {
 			chainId := evmtypes.ConvertCosmosChainIDToEthereumChainID(sdkCtx.ChainID())
 			rpcTx := rpctypes.NewRPCTransaction(ethTx, common.Hash{}, 0, 0, chainId)
 
-- 
2.43.0


From 098781d07e54231f3acd82bfaed9f469be0fa5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 33/44] fix: calls ignored their value and treated the zero
 address as a creation

---
 jsonrpc/backend/eth.go       | 7 +++++++
 x/evm/keeper/query_server.go | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/eth.go b/jsonrpc/backend/eth.go
index ac76657..62fd073 100644
--- a/jsonrpc/backend/eth.go
+++ b/jsonrpc/backend/eth.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"math/big"
 
+	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
@@ -81,10 +82,16 @@ func (b *JSONRPCBackend) Call(args rpctypes.TransactionArgs, blockNrOrHash *rpc.
 		contractAddr = args.To.Hex()
 	}
 
+	_, decimals, err := b.feeDenomWithDecimals()
+	if err != nil {
+		return nil, err
+	}
+
 	res, err := keeper.NewQueryServer(b.app.EVMKeeper).Call(queryCtx, &types.QueryCallRequest{
 		Sender:       sender,
 		ContractAddr: contractAddr,
 		Input:        hexutil.Encode(args.GetData()),
+		Value:        math.NewIntFromBigInt(types.FromEthersUnit(decimals, args.Value.ToInt())),
 	})
 
 	if err != nil {
diff --git a/x/evm/keeper/query_server.go b/x/evm/keeper/query_server.go
index 165b268..013ecdf 100644
--- a/x/evm/keeper/query_server.go
+++ b/x/evm/keeper/query_server.go
@@ -79,7 +79,7 @@ func (qs *queryServerImpl) Call(ctx context.Context, req *types.QueryCallRequest
 
 	var retBz []byte
 	var logs []types.Log
-	if contractAddr == (common.Address{}) {
+	if req.ContractAddr == "" {
 		// if contract address is not provided, then it's a contract creation
 		retBz, _, logs, err = qs.EVMCreateWithTracer(sdkCtx, caller, inputBz, value, nil, nil, tracer)
 	} else {
-- 
2.43.0


From 52d9fdd636ef63f3d0d89dc4dd32b2e749ac12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 34/44] fix: block tags and hashes were not resolved for
 transaction counts and indexes

---
 jsonrpc/backend/tx.go | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index 8cefeb9..27d4ff9 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -150,14 +150,12 @@ func (b *JSONRPCBackend) GetTransactionByHash(hash common.Hash) (*rpctypes.RPCTr
 func (b *JSONRPCBackend) GetTransactionCount(address common.Address, blockNrOrHash rpc.BlockNumberOrHash) (*hexutil.Uint64, error) {
 	sdkAddr := sdk.AccAddress(address[:])
 
-	var blockNumber rpc.BlockNumber
-	if blockHash, ok := blockNrOrHash.Hash(); ok {
-		queryCtx, err := b.getQueryCtx()
-		if err != nil {
-			return nil, err
-		}
-
-		blockNumberU64, err := b.app.EVMIndexer().BlockHashToNumber(queryCtx, blockHash)
+	seq := uint64(0)
+	var queryCtx context.Context
+	if blockNumber, ok := blockNrOrHash.Number(); ok && blockNumber == rpc.PendingBlockNumber {
+		queryCtx = b.app.GetContextForCheckTx(nil)
+	} else {
+		blockNumber, err := b.resolveBlockNrOrHash(blockNrOrHash)
 		if err != nil && errors.Is(err, collections.ErrNotFound) {
 			return nil, nil
 		} else if err != nil {
@@ -165,22 +163,7 @@ func (b *JSONRPCBackend) GetTransactionCount(address common.Address, blockNrOrHa
 			return nil, err
 		}
 
-		blockNumber = rpc.BlockNumber(blockNumberU64)
-	} else {
-		blockNumber, _ = blockNrOrHash.Number()
-	}
-
-	seq := uint64(0)
-	var queryCtx context.Context
-	if blockNumber == rpc.PendingBlockNumber {
-		queryCtx = b.app.GetContextForCheckTx(nil)
-	} else {
-		if blockNumber < 0 {
-			blockNumber = 0
-		}
-
-		var err error
-		queryCtx, err = b.getQueryCtxWithHeight(uint64(blockNumber.Int64()))
+		queryCtx, err = b.getQueryCtxWithHeight(blockNumber)
 		if err != nil {
 			return nil, err
 		}
@@ -253,7 +236,11 @@ func (b *JSONRPCBackend) GetTransactionByBlockNumberAndIndex(blockNum rpc.BlockN
 		return nil, err
 	}
 
-	number := uint64(blockNum.Int64())
+	number, err := b.resolveBlockNr(blockNum)
+	if err != nil {
+		return nil, err
+	}
+
 	rpcTx, err := b.app.EVMIndexer().TxByBlockAndIndex(queryCtx, number, uint64(idx))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return nil, nil
-- 
2.43.0


From baa9abf293db2e043d889eb9d42f7ce68c030e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:00 +0000
Subject: [PATCH 35/44] fix: block and pending transaction filters expired at
 once

---
 jsonrpc/namespaces/eth/filters/api.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jsonrpc/namespaces/eth/filters/api.go b/jsonrpc/namespaces/eth/filters/api.go
index 092c837..a01904a 100644
--- a/jsonrpc/namespaces/eth/filters/api.go
+++ b/jsonrpc/namespaces/eth/filters/api.go
@@ -188,9 +188,10 @@ func (api *FilterAPI) NewPendingTransactionFilter(fullTx *bool) (rpc.ID, error)
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
-		txs:    make([]*rpctypes.RPCTransaction, 0),
-		hashes: make([]common.Hash, 0),
-		s:      s,
+		txs:      make([]*rpctypes.RPCTransaction, 0),
+		hashes:   make([]common.Hash, 0),
+		lastUsed: time.Now(),
+		s:        s,
 	}
 	api.filtersMut.Unlock()
 
@@ -241,8 +242,9 @@ func (api *FilterAPI) NewBlockFilter() (rpc.ID, error) {
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
-		hashes: make([]common.Hash, 0),
-		s:      s,
+		hashes:   make([]common.Hash, 0),
+		lastUsed: time.Now(),
+		s:        s,
 	}
 	api.filtersMut.Unlock()
 
-- 
2.43.0


From 63c7fd7bd0d56a8478d16e354f9f135cd3bb5eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:23 +0000
Subject: [PATCH 36/44] fix: a block missing in the index ended a log query
 early

---
 jsonrpc/namespaces/eth/filters/filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/namespaces/eth/filters/filter.go b/jsonrpc/namespaces/eth/filters/filter.go
index 0db7e6c..aeff6d9 100644
--- a/jsonrpc/namespaces/eth/filters/filter.go
+++ b/jsonrpc/namespaces/eth/filters/filter.go
@@ -166,9 +166,13 @@ func (f *Filter) rangeLogsAsync(ctx context.Context) (chan *coretypes.Log, chan
 func (f *Filter) unindexedLogs(ctx context.Context, end uint64, logChan chan *coretypes.Log) error {
 	for ; f.begin <= int64(end); f.begin++ {
 		header, err := f.backend.GetHeaderByNumber(rpc.BlockNumber(f.begin))
-		if header == nil || err != nil {
+		if err != nil {
 			return err
 		}
+		// the block is not indexed
+		if header == nil {
+			continue
+		}
 		found, err := f.blockLogs(header)
 		if err != nil {
 			return err
-- 
2.43.0


From d7ee18ccecaa8f78a542255b1726dc07d49e377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 37/44] fix: the account mutexes were read without their lock

---
 jsonrpc/backend/backend.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonrpc/backend/backend.go b/jsonrpc/backend/backend.go
index c5933dd..5d3cc74 100644
--- a/jsonrpc/backend/backend.go
+++ b/jsonrpc/backend/backend.go
@@ -92,11 +92,10 @@ func (b *JSONRPCBackend) acquireAccMut(senderHex string) {
 // and decrements the reference count. If the reference count reaches zero,
 // the mutex is deleted.
 func (b *JSONRPCBackend) releaseAccMut(senderHex string) {
-	accMut := b.accMuts[senderHex]
-	accMut.mut.Unlock()
-
 	// critical section for rc and delete
 	b.mut.Lock()
+	accMut := b.accMuts[senderHex]
+	accMut.mut.Unlock()
 	accMut.rc--
 	if accMut.rc == 0 {
 		delete(b.accMuts, senderHex)
-- 
2.43.0


From f20fc523b7b29f4d861ea71a52e1a2960572241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 38/44] fix: queued transactions were lost when the broadcast
 failed

---
 jsonrpc/backend/tx.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index 27d4ff9..0729591 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -91,16 +91,26 @@ func (b *JSONRPCBackend) SendTx(tx *coretypes.Transaction) error {
 	for {
 		cacheKey := fmt.Sprintf("%s-%d", senderHex, accSeq)
 		if txBytes, ok := b.queuedTxs.Get(cacheKey); ok {
-			_ = b.queuedTxs.Remove(cacheKey)
-
 			b.logger.Debug("broadcast queued tx", "sender", senderHex, "txSeq", accSeq)
 			res, err := b.clientCtx.BroadcastTxSync(txBytes)
+
+			// keep a tx which was accepted before, unless the mempool has decided on it
+			if err == nil || accSeq == txSeq {
+				_ = b.queuedTxs.Remove(cacheKey)
+			}
+			if err == nil && res.Code != 0 {
+				err = sdkerrors.ErrInvalidRequest.Wrapf("tx failed with code: %d: raw_log: %s", res.Code, res.RawLog)
+			}
 			if err != nil {
+				// the failure of another tx is not the one of the given tx,
+				// which is either broadcasted or queued.
+				if accSeq != txSeq {
+					b.logger.Error("failed to broadcast queued tx", "sender", senderHex, "txSeq", accSeq, "err", err)
+					return nil
+				}
+
 				return err
 			}
-			if res.Code != 0 {
-				return sdkerrors.ErrInvalidRequest.Wrapf("tx failed with code: %d: raw_log: %s", res.Code, res.RawLog)
-			}
 		} else {
 			break
 		}
-- 
2.43.0


From ce585a42800a5dc10dd13a61a0734782cbd28e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 39/44] fix: fee history ranges, base fees and rewards

---
 jsonrpc/backend/feehistory.go | 46 ++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/jsonrpc/backend/feehistory.go b/jsonrpc/backend/feehistory.go
index ee25fff..76257d2 100644
--- a/jsonrpc/backend/feehistory.go
+++ b/jsonrpc/backend/feehistory.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 	"math/big"
@@ -9,12 +10,10 @@ import (
 	"sync/atomic"
 
 	"github.com/ethereum/go-ethereum/common"
-	"github.com/ethereum/go-ethereum/consensus/misc/eip1559"
 	coretypes "github.com/ethereum/go-ethereum/core/types"
 	"github.com/ethereum/go-ethereum/rpc"
 
 	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 const (
@@ -155,9 +154,11 @@ func (b *JSONRPCBackend) FeeHistory(blocks uint64, unresolvedLastBlock rpc.Block
 	var (
 		reward           = make([][]*big.Int, blocks)
 		baseFee          = make([]*big.Int, blocks+1)
+		nextBaseFee      = make([]*big.Int, blocks)
 		gasUsedRatio     = make([]float64, blocks)
 		blobGasUsedRatio = make([]float64, blocks)
 		blobBaseFee      = make([]*big.Int, blocks+1)
+		nextBlobBaseFee  = make([]*big.Int, blocks)
 		firstMissing     = blocks
 	)
 	for ; blocks > 0; blocks-- {
@@ -167,8 +168,8 @@ func (b *JSONRPCBackend) FeeHistory(blocks uint64, unresolvedLastBlock rpc.Block
 		}
 		i := fees.blockNumber - oldestBlock
 		if fees.results.baseFee != nil {
-			reward[i], baseFee[i], baseFee[i+1], gasUsedRatio[i] = fees.results.reward, fees.results.baseFee, fees.results.nextBaseFee, fees.results.gasUsedRatio
-			blobGasUsedRatio[i], blobBaseFee[i], blobBaseFee[i+1] = fees.results.blobGasUsedRatio, fees.results.blobBaseFee, fees.results.nextBlobBaseFee
+			reward[i], baseFee[i], nextBaseFee[i], gasUsedRatio[i] = fees.results.reward, fees.results.baseFee, fees.results.nextBaseFee, fees.results.gasUsedRatio
+			blobGasUsedRatio[i], blobBaseFee[i], nextBlobBaseFee[i] = fees.results.blobGasUsedRatio, fees.results.blobBaseFee, fees.results.nextBlobBaseFee
 		} else {
 			// getting no block and no error means we are requesting into the future (might happen because of a reorg)
 			if i < firstMissing {
@@ -184,6 +185,8 @@ func (b *JSONRPCBackend) FeeHistory(blocks uint64, unresolvedLastBlock rpc.Block
 	} else {
 		reward = nil
 	}
+	// only the newest block gives the next base fee
+	baseFee[firstMissing], blobBaseFee[firstMissing] = nextBaseFee[firstMissing-1], nextBlobBaseFee[firstMissing-1]
 	baseFee, gasUsedRatio = baseFee[:firstMissing+1], gasUsedRatio[:firstMissing]
 	blobBaseFee, blobGasUsedRatio = blobBaseFee[:firstMissing+1], blobGasUsedRatio[:firstMissing]
 	return new(big.Int).SetUint64(oldestBlock), reward, baseFee, gasUsedRatio, blobBaseFee, blobGasUsedRatio, nil
@@ -199,6 +202,9 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 	if headBlock, err = b.GetHeaderByNumber(rpc.LatestBlockNumber); err != nil {
 		return 0, 0, err
 	}
+	if headBlock == nil {
+		return 0, 0, errors.New("latest block is not indexed")
+	}
 	head := rpc.BlockNumber(headBlock.Number.Uint64())
 
 	// Fail if request block is beyond the chain's current head.
@@ -209,6 +215,9 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 	// return latest block if requested block is special
 	if reqEnd < 0 {
 		reqEnd = rpc.BlockNumber(headBlock.Number.Uint64())
+	} else if reqEnd == 0 {
+		// the first block is 1
+		reqEnd = 1
 	}
 
 	// If there are no blocks to return, short circuit.
@@ -216,8 +225,8 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 		return 0, 0, nil
 	}
 	// Ensure not trying to retrieve before genesis.
-	if uint64(reqEnd+1) < blocks {
-		blocks = uint64(reqEnd + 1)
+	if uint64(reqEnd) < blocks {
+		blocks = uint64(reqEnd)
 	}
 	return uint64(reqEnd), blocks, nil
 }
@@ -226,19 +235,12 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 // the block field filled in, retrieves the block from the backend if not present yet and
 // fills in the rest of the fields.
 func (b *JSONRPCBackend) processBlock(bf *blockFees, percentiles []float64) {
-	ctx, err := b.app.CreateQueryContext(0, false)
-	if err != nil {
-		bf.err = err
-		return
-	}
-
-	config := evmtypes.DefaultChainConfig(ctx)
-
 	// Fill in base fee and next base fee.
 	if bf.results.baseFee = bf.header.BaseFee; bf.results.baseFee == nil {
 		bf.results.baseFee = new(big.Int)
 	}
-	bf.results.nextBaseFee = eip1559.CalcBaseFee(config, bf.header)
+	// the base fee does not depend on the gas used by the previous blocks
+	bf.results.nextBaseFee = bf.results.baseFee
 	bf.results.blobBaseFee = new(big.Int)
 	bf.results.nextBlobBaseFee = new(big.Int)
 
@@ -265,18 +267,28 @@ func (b *JSONRPCBackend) processBlock(bf *blockFees, percentiles []float64) {
 
 	sorter := make([]txGasAndReward, len(bf.txs))
 	for i, tx := range bf.txs {
-		reward, _ := tx.EffectiveGasTip(bf.header.BaseFee)
+		reward, err := tx.EffectiveGasTip(bf.header.BaseFee)
+		if err != nil {
+			// the fee cap is below the base fee, a reward can't be negative
+			reward = new(big.Int)
+		}
 		sorter[i] = txGasAndReward{gasUsed: bf.receipts[i].GasUsed, reward: reward}
 	}
 	slices.SortStableFunc(sorter, func(a, b txGasAndReward) int {
 		return a.reward.Cmp(b.reward)
 	})
 
+	// the block gas used includes the gas used by cosmos txs
+	totalGasUsed := uint64(0)
+	for _, tx := range sorter {
+		totalGasUsed += tx.gasUsed
+	}
+
 	var txIndex int
 	sumGasUsed := sorter[0].gasUsed
 
 	for i, p := range percentiles {
-		thresholdGasUsed := uint64(float64(bf.header.GasUsed) * p / 100)
+		thresholdGasUsed := uint64(float64(totalGasUsed) * p / 100)
 		for sumGasUsed < thresholdGasUsed && txIndex < len(bf.txs)-1 {
 			txIndex++
 			sumGasUsed += sorter[txIndex].gasUsed
-- 
2.43.0


From 417c953126b86ac2637b0cb5d61be60d624b3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:38 +0000
Subject: [PATCH 40/44] fix: IBC hooks refused contracts named by their bech32
 address

---
 app/ibc-hooks/receive.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index e4a9fd8..7b6160e 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -64,7 +64,11 @@ func (h EVMHooks) onRecvIcs20Packet(
 
 	msg.Sender = intermediateSender
 	localDenom := LocalDenom(packet, data.Denom)
-	_, err = h.approveERC20(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localDenom, data.Amount)
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
+	_, err = h.approveERC20(ctx, intermediateSender, contractAddr, localDenom, data.Amount)
 	if err != nil {
 		return newEmitErrorAcknowledgement(err)
 	}
@@ -149,8 +153,12 @@ func (h EVMHooks) onRecvIcs721Packet(
 	// approve the transfer of the NFT to the contract
 	msg.Sender = intermediateSender
 	localClassId := LocalClassId(packet, data.ClassId)
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
 	for _, tokenId := range data.TokenIds {
-		_, err = h.approveERC721(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localClassId, tokenId)
+		_, err = h.approveERC721(ctx, intermediateSender, contractAddr, localClassId, tokenId)
 		if err != nil {
 			return newEmitErrorAcknowledgement(err)
 		}
-- 
2.43.0


From 29775ef326d87fc09552411398fb39e55a16e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:50 +0000
Subject: [PATCH 41/44] fix: a hook in a forwarded packet panicked

---
 app/ibc-hooks/receive.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index 7b6160e..3b1ed68 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -58,7 +58,10 @@ func (h EVMHooks) onRecvIcs20Packet(
 	packet.Data = data.GetBytes()
 
 	ack := im.App.OnRecvPacket(ctx, packet, relayer)
-	if !ack.Success() {
+	if ack == nil {
+		// the application acknowledges later, so the hook cannot be executed with the transfer
+		return newEmitErrorAcknowledgement(fmt.Errorf("asynchronous acknowledgement is not supported in ibchooks"))
+	} else if !ack.Success() {
 		return ack
 	}
 
@@ -146,7 +149,10 @@ func (h EVMHooks) onRecvIcs721Packet(
 	packet.Data = data.GetBytes(packet.SourcePort)
 
 	ack := im.App.OnRecvPacket(ctx, packet, relayer)
-	if !ack.Success() {
+	if ack == nil {
+		// the application acknowledges later, so the hook cannot be executed with the transfer
+		return newEmitErrorAcknowledgement(fmt.Errorf("asynchronous acknowledgement is not supported in ibchooks"))
+	} else if !ack.Success() {
 		return ack
 	}
 
-- 
2.43.0


From 751d9dea50c79290b24e621716415cbbab1d23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:56 +0000
Subject: [PATCH 42/44] fix: callback ids above 2^53 lost their precision

---
 app/ibc-hooks/util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app/ibc-hooks/util.go b/app/ibc-hooks/util.go
index c589804..0736182 100644
--- a/app/ibc-hooks/util.go
+++ b/app/ibc-hooks/util.go
@@ -55,21 +55,21 @@ func validateAndParseMemo(memo string) (
 	hookData HookData,
 	err error,
 ) {
-	isEVMRouted, metadata := jsonStringHasKey(memo, evmHookMemoKey)
+	isEVMRouted, _ = jsonStringHasKey(memo, evmHookMemoKey)
 	if !isEVMRouted {
 		return
 	}
 
-	evmHookRaw := metadata[evmHookMemoKey]
-
-	// parse evm raw bytes to execute message
-	bz, err := json.Marshal(evmHookRaw)
+	// keep the raw bytes, numbers of a decoded object lose their precision
+	metadata := make(map[string]json.RawMessage)
+	err = json.Unmarshal([]byte(memo), &metadata)
 	if err != nil {
 		err = errors.Wrap(channeltypes.ErrInvalidPacket, err.Error())
 		return
 	}
 
-	err = json.Unmarshal(bz, &hookData)
+	// parse evm raw bytes to execute message
+	err = json.Unmarshal(metadata[evmHookMemoKey], &hookData)
 	if err != nil {
 		err = errors.Wrap(channeltypes.ErrInvalidPacket, err.Error())
 		return
-- 
2.43.0


From b0ffc31fef1c8d356b910dabbace27bbdddfd8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:02 +0000
Subject: [PATCH 43/44] fix: packets with a malformed hook were taken for plain
 transfers

---
 app/ibc-hooks/receive.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index 3b1ed68..6f81a84 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -27,7 +27,7 @@ func (h EVMHooks) onRecvIcs20Packet(
 	data transfertypes.FungibleTokenPacketData,
 ) ibcexported.Acknowledgement {
 	isEVMRouted, hookData, err := validateAndParseMemo(data.GetMemo())
-	if !isEVMRouted || hookData.Message == nil {
+	if !isEVMRouted || (err == nil && hookData.Message == nil) {
 		return im.App.OnRecvPacket(ctx, packet, relayer)
 	} else if err != nil {
 		return newEmitErrorAcknowledgement(err)
@@ -118,7 +118,7 @@ func (h EVMHooks) onRecvIcs721Packet(
 	data nfttransfertypes.NonFungibleTokenPacketData,
 ) ibcexported.Acknowledgement {
 	isEVMRouted, hookData, err := validateAndParseMemo(data.GetMemo())
-	if !isEVMRouted || hookData.Message == nil {
+	if !isEVMRouted || (err == nil && hookData.Message == nil) {
 		return im.App.OnRecvPacket(ctx, packet, relayer)
 	} else if err != nil {
 		return newEmitErrorAcknowledgement(err)
-- 
2.43.0


From 708327e60773bef9725da2ae79cb2e1faac5e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:13 +0000
Subject: [PATCH 44/44] fix: hooks were refused with returning ERC20 and ERC721
 tokens

---
 app/ibc-hooks/receive.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index 6f81a84..9c34cf0 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -95,7 +95,7 @@ func (h EVMHooks) approveERC20(ctx sdk.Context, intermediateSender string, contr
 		return nil, err
 	}
 
-	erc20Addr, err := h.evmKeeper.GetContractAddrByDenom(ctx, denom)
+	erc20Addr, err := evmtypes.DenomToContractAddr(ctx, h.evmKeeper, denom)
 	if err != nil {
 		return nil, err
 	}
@@ -194,7 +194,7 @@ func (h EVMHooks) approveERC721(ctx sdk.Context, intermediateSender string, cont
 		return nil, err
 	}
 
-	erc721Addr, err := h.evmKeeper.GetContractAddrByClassId(ctx, classId)
+	erc721Addr, err := evmtypes.ContractAddressFromClassId(ctx, h.evmKeeper, classId)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

