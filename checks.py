"""What each property's check runs: harness package, test, and how many cases per tier."""

ASSUMPTIONS = [
    "the Go toolchain, cosmos-sdk, cometbft, ibc-go, OPinit and the forked go-ethereum interpreter are trusted as they are in the module cache",
    "absence of a violation is shown only for the generated cases counted here",
]


def T(pkg, test, quick, thorough, **kw):
    return dict(pkg=pkg, test=test, quick=quick, thorough=thorough, **kw)


PROPS = {
    "C01": dict(tests=[T("evmdiff", "TestEVMMatchesReference", 6400, 200000)]),
    "C02": dict(tests=[T("statedb", "TestStateDBModel", 12000, 400000)]),
    "C03": dict(tests=[T("precompile", "TestFrameEffects", 4000, 160000)]),
    "C04": dict(tests=[T("convert", "TestRoundTrip", 64000, 2000000), T("convert", "TestOtherTxs", 64000, 2000000)]),
    "C05": dict(tests=[T("txflow", "TestSignatures", 4000, 160000)]),
    "C06": dict(tests=[T("txflow", "TestSequences", 4000, 160000)]),
    "C07": dict(tests=[T("txflow", "TestFees", 4000, 160000)]),
    "C08": dict(tests=[T("ledger", "TestOneLedger", 3200, 100000)]),
    "C09": dict(tests=[T("ledger", "TestERC20Authority", 4000, 120000)]),
    "C10": dict(tests=[T("ledger", "TestDenoms", 6400, 200000)]),
    "C11": dict(tests=[T("nft", "TestOwnership", 2000, 60000)]),
    "C12": dict(tests=[T("genesis", "TestExportImport", 600, 20000)]),
    "C14": dict(tests=[T("nodes", "TestQueriesChangeNothing", 640, 20000)]),
    "C13": dict(tests=[T("blockhash", "TestBlockHashKeeper", 3200, 100000), T("blockhash", "TestBlockHashChain", 200, 10000)]),
    "C15": dict(tests=[T("precompile", "TestAuthority", 2400, 80000), T("precompile", "TestQueries", 6400, 300000),
                       T("precompile", "TestConversions", 3200, 160000), T("precompile", "TestMalformedInput", 6400, 300000),
                       T("precompile", "TestFrameEffects", 800, 16000)]),
    "C16": dict(tests=[T("hooks", "TestHooks", 5600, 200000)]),
    "C17": dict(tests=[T("index", "TestIndex", 480, 16000)]),
    "C18": dict(tests=[T("rpcs", "TestAnswers", 560, 16000), T("rpcs", "TestFilters", 480, 16000), T("rpcs", "TestFilterLifetime", 64, 1600)]),
    "C19": dict(tests=[T("rpcs", "TestSubmissions", 560, 16000), T("rpcs", "TestConcurrentSubmissions", 480, 16000)]),
    "C20": dict(tests=[T("rpcs", "TestFees", 560, 16000)]),
    "C21": dict(tests=[T("convert", "TestUnits", 400000, 10000000), T("convert", "TestValueUnits", 48000, 2000000),
                       T("convert", "TestGasPriceUnits", 48000, 2000000)]),
    "C22": dict(tests=[T("config", "TestRules", 16000, 600000), T("config", "TestSendRules", 8000, 300000)]),
    "C23": dict(tests=[T("nodes", "TestSameExecution", 320, 10000)]),
    "C24": dict(tests=[T("txflow", "TestGasCharged", 2400, 100000), T("txflow", "TestGasLimits", 2400, 100000),
                       T("txflow", "TestKeeperGas", 16000, 600000)]),
    "C25": dict(tests=[T("accounts", "TestShorthands", 6400, 300000)]),
}
