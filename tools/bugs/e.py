"""Planted bugs in the TypeScript package and in the layout of the exchange's messages."""
BUGS = []


def bug(id, prop, f, old, new, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=[(f, old, new)], needs=needs, breaks=breaks, demo=demo, kit="ts"))


bug("h01-event-order", "H01", "sdk/src/utils.ts", '"amountIn":"TokenAmount","amountOut":"TokenAmount","fee":"TokenAmount","startSqrtPrice"', '"amountIn":"TokenAmount","fee":"TokenAmount","amountOut":"TokenAmount","startSqrtPrice"',
    "a trade's event received by a listener of the client", "The client's listener reports the amount paid out as the fee and the fee as the amount paid out.", """
const { InvariantContract } = req("./invariant-contract.js"), { decodeEvent } = req("./utils.js");
const c = new InvariantContract(api(), "0x01");
const key = [...id(A), ...id(B), ...le(100, 16), ...le(10, 2)];
const payload = [...str("Service"), ...str("SwapEvent"), ...le(5, 8), ...id(C), ...key, ...le(11, 32), ...le(22, 32), ...le(33, 32), ...le(44, 16), ...le(55, 16), 1];
const e = decodeEvent(c.registry, hex(payload), "SwapEvent");
check("the amount out is the amount out", e.amountOut === 22n && e.amountIn === 11n);
check("the fee is the fee", e.fee === 33n && e.startSqrtPrice === 44n && e.targetSqrtPrice === 55n && e.xToY === true);
""")
bug("h01-page", "H01", "sdk/src/invariant-contract.ts", "['Service', 'GetPositions', owner_id, size, offset]", "['Service', 'GetPositions', owner_id, offset, size]",
    "a page of positions other than the first one asked for by offset", "The page size and the offset change places in the query for positions.", """
const { InvariantContract } = req("./invariant-contract.js");
let asked;
const c = new InvariantContract(api(p => { asked = p; return hex([...str("Service"), ...str("GetPositions"), 0, 0, ...le(9, 4)]); }), "0x01");
c.service.getPositions(A, 7, 3, B).then(r => {
  check("size, then offset", asked === hex([...str("Service"), ...str("GetPositions"), ...id(A), ...le(7, 4), ...le(3, 4)]));
  check("the reply", r.ok[1] === 9);
});
""")
bug("h02-tolerance", "H02", "sdk/src/invariant.ts", """      slippage,
      !xToY
""", """      slippage,
      xToY
""", "a trade with a tolerance other than zero", "The limit of a trade with a tolerance is set on the side the price moves away from, so the trade is refused or unlimited.", """
const { InvariantContract } = req("./invariant-contract.js"), { Invariant } = req("./invariant.js");
const c = new InvariantContract(api(), "0x01"), i = Object.assign(Object.create(Invariant.prototype), { contract: c, gasLimit: 1n });
const key = { tokenX: A, tokenY: B, feeTier: { fee: 1n, tickSpacing: 1n } }, P = 10n ** 24n, S = 10n ** 10n;
(async () => {
  for (const x of [true, false]) {
    const t = (await i.swapWithSlippageTx(key, x, 5n, true, P, S)).txBuilder;
    check("the pool, direction and amount", t.args[1] === "Swap" && t.args[2] === key && t.args[3] === x && t.args[4] === 5n && t.args[5] === true);
    check("the limit lies where the price goes", x ? t.args[6] < P : t.args[6] > P);
  }
})();
""")
bug("h02-outside-growth", "H02", "sdk/src/utils.ts", """    upperTick.feeGrowthOutsideX as any,
    upperTick.feeGrowthOutsideY as any,""", """    upperTick.feeGrowthOutsideX as any,
    lowerTick.feeGrowthOutsideY as any,""", "a position whose two ticks carry different growth of the second token's fee", "The fees a position can claim are computed with the lower tick's growth in place of the upper one's.", """
const { calculateFee } = req("./utils.js");
try { calculateFee({ currentTickIndex: 1, feeGrowthGlobalX: 2, feeGrowthGlobalY: 3 }, { feeGrowthInsideX: 4, feeGrowthInsideY: 5, liquidity: 6n },
  { index: 7, feeGrowthOutsideX: 8, feeGrowthOutsideY: 9 }, { index: 10, feeGrowthOutsideX: 11, feeGrowthOutsideY: 12 }); } catch (e) {}
const a = wasmCalls.filter(c => c[0] === "_calculateFee")[0][1].map(String);
check("every value in its place", a.slice(0, 11).join() === "7,8,9,10,11,12,1,2,3,4,5");
""")
bug("h02-first-tick", "H02", "sdk/src/invariant.ts", "const initTick = calculateTick(initSqrtPrice, key.feeTier.tickSpacing)", "const initTick = calculateTick(initSqrtPrice, 1n)", "a pool of a tier with wide ticks opened at a price between two of them",
    "A pool is opened at a tick that is not one of its tier's.", """
const { InvariantContract } = req("./invariant-contract.js"), { Invariant } = req("./invariant.js");
const c = new InvariantContract(api(), "0x01"), i = Object.assign(Object.create(Invariant.prototype), { contract: c, gasLimit: 1n });
i.createPoolTx({ tokenX: A, tokenY: B, feeTier: { fee: 1n, tickSpacing: 10n } }, 77n).then(() => {
  const a = wasmCalls.filter(c => c[0] === "_calculateTick")[0][1].map(String);
  check("the tick is computed for the pool's own spacing", a.join() === "77,10");
});
""")
