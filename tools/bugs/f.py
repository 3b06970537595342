"""Planted bugs in what the TypeScript client makes of the answers, and in the package's own arithmetic."""
BUGS = []


def bug(id, prop, f, old, new, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=[(f, old, new)], needs=needs, breaks=breaks, demo=demo, kit="ts"))


bug("h03-receiver", "H03", "sdk/src/utils.ts", "['currentIndex', 'feeReceiver']", "['currentTickIndex']", "a pool read through the client", "The account that receives a pool's protocol fee comes back as a number.", """
const { convertPool } = req("./utils.js");
const p = convertPool({ liquidity: "0x0a", sqrtPrice: 7, currentTickIndex: -3, feeReceiver: A, startTimestamp: 5 });
check("the account is an account", p.feeReceiver === A);
check("numbers are numbers", p.liquidity === 10n && p.sqrtPrice === 7n && p.currentTickIndex === -3n && p.startTimestamp === 5n);
""")
bug("h03-page-order", "H03", "sdk/src/invariant.ts", "return a[0][1] - b[0][1]", "return a[0][1] < b[0][1] ? 1 : 0", "positions in two pools opened alternately", "Positions come back grouped by pool, not by the index they are addressed with.", """
const { Invariant } = req("./invariant.js");
const pool = n => ({ liquidity: n }), pos = n => ({ liquidity: n, poolKey: { tokenX: A, tokenY: B, feeTier: { fee: 1, tickSpacing: 1 } } });
const i = Object.assign(Object.create(Invariant.prototype), { contract: { service: { getPositions: async () => ({ ok: [[[pool(1), [[pos(10), 0], [pos(12), 2]]], [pool(2), [[pos(11), 1], [pos(13), 3]]]], 4] }) } } });
i.getPositions(A, 10n, 0n).then(([l, n]) => {
  check("by index", l.map(x => Number(x[0].liquidity)).join() === "10,11,12,13");
  check("each with its pool", l.map(x => Number(x[1].liquidity)).join() === "1,2,1,2" && n === 4n);
});
""")
bug("h03-off", "H03", "sdk/src/invariant.ts", "return !(callback.callback === eventListener)", "return callback.callback === eventListener", "two listeners of one event, one of them taken off", "The listener taken off stays and all others go.", """
const { Invariant } = req("./invariant.js");
let send;
const contract = { programId: "0x01", registry: null, api: { gearEvents: { subscribeToGearEvent: (_, f) => { send = f; } } } };
const i = Object.assign(Object.create(Invariant.prototype), { contract, eventListeners: {}, eventListenerStarted: false });
const a = { ident: "SwapEvent", callback: () => {} }, b = { ident: "SwapEvent", callback: () => {} };
i.on(a); i.on(b); i.off(a);
const l = i.eventListeners.SwapEvent;
check("the other one stays", l.length === 1 && l[0] === b.callback && typeof send === "function");
""")
bug("h03-late-error", "H03", "sdk/src/utils.ts", """  } else if (result.err) {
    throw new Error(result.err)
  } else {""", """  } else if (result.err) {
    return undefined as any
  } else {""", "a query the exchange refuses, whose answer is used as a list or passed on", "A refused query comes back as no answer at all instead of the exchange's error.", """
const { unwrapResult } = req("./utils.js");
let said = "";
try { unwrapResult({ err: "PoolNotFound" }); } catch (e) { said = e.message; }
check("the refusal is raised", said === "PoolNotFound" && unwrapResult({ ok: 5 }) === 5);
""")
bug("h04-tolerance", "H04", "sdk/src/utils.ts", "const multiplier = percentageDenominator + (up ? slippage : -slippage)", "const multiplier = percentageDenominator + (up ? slippage : -slippage / 2n)", "a tolerance on the way down", "A trade with a tolerance is refused at half of it when the price falls.", """
const { calculateSqrtPriceAfterSlippage } = req("./utils.js");
const P = 10n ** 24n, S = 10n ** 12n;
const d = calculateSqrtPriceAfterSlippage(P, S / 100n * 19n, false), u = calculateSqrtPriceAfterSlippage(P, S / 100n * 21n, true);
check("0.9 is the root of 0.81", d * 10n ** 6n / P === 900000n);
check("1.1 is the root of 1.21", u * 10n ** 6n / P === 1100000n);
""")
bug("h04-impact", "H04", "sdk/src/utils.ts", "const denominator = startingPrice > endingPrice ? startingPrice : endingPrice", "const denominator = startingPrice", "a trade that raises the price", "The impact of a trade that raises the price is measured against the lower price, and can exceed one.", """
const { calculatePriceImpact } = req("./utils.js");
const S = 10n ** 12n, P = 10n ** 24n;
check("up", calculatePriceImpact(P, 2n * P) === S / 4n * 3n);
check("down", calculatePriceImpact(2n * P, P) === S / 4n * 3n);
""")
bug("h04-depth", "H04", "sdk/src/utils.ts", "currentLiquidity = currentLiquidity + tick.liquidityChange * (tick.sign ? 1n : -1n)", "currentLiquidity = tick.sign ? currentLiquidity + tick.liquidityChange : tick.liquidityChange - currentLiquidity", "a tick at which liquidity leaves while other liquidity stays", "The chart of liquidity is wrong behind the first tick that removes only a part.", """
const { calculateLiquidityBreakpoints } = req("./utils.js");
const l = calculateLiquidityBreakpoints([{ index: -10n, liquidityChange: 5n, sign: true }, { index: 0n, liquidityChange: 7n, sign: true }, { index: 10n, liquidityChange: 5n, sign: false }, { index: 20n, liquidityChange: 7n, sign: false }]);
check("running sum", l.map(x => x.liquidity).join() === "5,12,7,0" && l.map(x => x.index).join() === "-10,0,10,20");
""")
