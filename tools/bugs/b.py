SWAP = "call(3, move |s| s.swap(k, %s, tok(%s), true, SqrtPrice::new(%s.into()))).ok();"
X = lambda amt: SWAP % ("true", amt, "MIN_SQRT_PRICE")
Y = lambda amt: SWAP % ("false", amt, "MAX_SQRT_PRICE")
BUGS = [
 dict(id="b05-claim-one-sided", property="B05",
  edits=[("src/invariant_service.rs", """            invariant.positions.update(&caller, index, &position)?;
            invariant.pools.update(&position.pool_key, &pool)?;""", """            if !x.is_zero() {
                invariant.positions.update(&caller, index, &position)?;
            }
            invariant.pools.update(&position.pool_key, &pool)?;""")],
  needs="a claim on a position whose range earned fees only in the second token, followed by another claim",
  breaks="a claim that yields nothing of the first token does not store the position, so the second token's fees are paid again and again",
  demo="""
fn main() {
    deploy();
    let k = market();
    open(2, k, -1000, 1000, 1_000_000_000);
    """ + Y("1_000_000") + """
    let (x, y) = call(2, |s| s.claim_fee(0)).ok();
    check("fees in the second token only", x.is_zero() && !y.is_zero());
    let b = balance(2, 12);
    call(2, |s| s.claim_fee(0)).ok();
    check("nothing is paid twice", balance(2, 12) == b);
}"""),
 dict(id="b07-refund-emptied-account", property="B07",
  edits=[("src/invariant_service.rs", """                // Only failure on withdrawal needs to stored, since in case of deposit failure the amount is not deducted from users account
                if matches!(transfer_type, TransferType::Withdrawal) {""", """                // Only failure on withdrawal needs to stored, since in case of deposit failure the amount is not deducted from users account
                if matches!(transfer_type, TransferType::Withdrawal)
                    && invariant.balances.contains_key(account)
                {""")],
  needs="a withdrawal of an account's only balance in full, answered by a crash of the token program",
  breaks="the withdrawn amount is lost when the account held nothing else, because its balance entry is gone when the failure is handled",
  demo="""
fn main() {
    deploy();
    fund(4, 13, 5000);
    let p = begin(4, |s| s.withdraw_single_token(actor(13), None)).waiting();
    let id = env().sent.last().unwrap().id;
    answer(id, "panic".to_string().encode(), false).ok();
    let _ = resume(p);
    check("amount returned after the token crashed", balance(4, 13) == 5000);
}"""),
 dict(id="b08-narrow-amount", property="B08",
  edits=[("src/invariant_service.rs", """            to.encode(),
            amount.encode(),
        ]""", """            to.encode(),
            U256::from(amount.get().low_u128()).encode(),
        ]""")],
  needs="a deposit of at least 2^128 units of a token",
  breaks="the request asks the token for the low 128 bits of the amount while the whole amount is credited",
  demo="""
fn main() {
    deploy();
    let big = TokenAmount::new(U256::from(u128::MAX) + U256::from(5));
    let _p = begin(2, move |s| s.deposit_single_token(actor(11), big)).waiting();
    let m = env().sent.last().unwrap().clone();
    check("the requested amount is the deposited amount", m.payload.ends_with(&big.encode()));
}"""),
 dict(id="c04-minimum-by-quote", property="C04",
  edits=[("src/invariant_service.rs", """            let amount_out = Self::route(RouteType::Swap(self), amount_in, swaps)?;

            let min_amount_out = calculate_min_amount_out(expected_amount_out, slippage);

            if amount_out < min_amount_out {
                return Err(InvariantError::AmountUnderMinimumAmountOut);
            } else {
                Ok(amount_out)
            }""", """            let quoted = Self::route(RouteType::Quote, amount_in, swaps.clone())?;

            let min_amount_out = calculate_min_amount_out(expected_amount_out, slippage);

            // refuse before anything is traded
            if quoted < min_amount_out {
                return Err(InvariantError::AmountUnderMinimumAmountOut);
            }

            Self::route(RouteType::Swap(self), amount_in, swaps)""")],
  needs="a route that passes through the same pool twice",
  breaks="the minimum is compared with a quotation, which does not see the effect of the route's own earlier hop, so the route may yield less than the minimum",
  demo="""
fn main() {
    deploy();
    let k = market();
    open(2, k, -1000, 1000, 1_000_000_000_000);
    let hops = || vec![SwapHop { pool_key: key(11, 12, tier(6, 10)), x_to_y: true }, SwapHop { pool_key: key(11, 12, tier(6, 10)), x_to_y: true }];
    let quoted = call(3, move |s| s.quote_route(tok(50_000_000), hops())).ok().unwrap();
    let want = quoted;
    let r = call(3, move |s| s.swap_route(tok(50_000_000), want, Percentage::new(0), hops()));
    check("the route yields the minimum or is refused", match r { Out::Ok(x) => x >= want, o => o.rejected() });
}"""),
 dict(id="c05-sorted-crossings", property="C05",
  edits=[("src/invariant_service.rs", """            if !crossed_tick_indexes.is_empty() {
                self.notify_on""", """            if !crossed_tick_indexes.is_empty() {
                crossed_tick_indexes.sort_unstable();
                self.notify_on""")],
  needs="a downward swap that crosses at least two ticks",
  breaks="the crossed ticks are announced in ascending order, not in the order in which they were crossed",
  demo="""
fn main() {
    deploy();
    let k = market();
    open(2, k, -10, 10, 1_000_000_000);
    open(2, k, -20, 20, 1_000_000_000);
    open(2, k, -1000, 1000, 1_000_000_000);
    events().clear();
    let r = call(3, move |s| s.swap(k, true, tok(20_000_000), true, SqrtPrice::new(MIN_SQRT_PRICE.into()))).ok();
    let want: Vec<i32> = r.ticks.iter().map(|t| t.index).collect();
    check("two ticks crossed", want.len() >= 2);
    let got = events().iter().find_map(|e| match e { InvariantEvent::CrossTickEvent { indexes, .. } => Some(indexes.clone()), _ => None });
    check("announced in order", got == Some(want));
}"""),
 dict(id="c08-page-index", property="C08",
  edits=[("src/invariant_service.rs", "            let position_index = offset + index as u32;", "            let position_index = if grouped_positions.is_empty() {\n                offset + index as u32\n            } else {\n                offset.min(index as u32) + index as u32\n            };")],
  needs="a page of positions with an offset larger than zero and at least two positions on it",
  breaks="from the second position of a page on the reported index is wrong",
  demo="""
fn main() {
    deploy();
    let k = market();
    for i in 1..6 { open(2, k, -10 * i, 10 * i, 1_000_000_000); }
    let (g, n) = call(9, |s| s.get_positions(actor(2), 3, 2)).ok().unwrap();
    let idx: Vec<u32> = g[0].1.iter().map(|p| p.1).collect();
    check("five positions", n == 5);
    check("indexes of the page", idx == vec![2, 3, 4]);
}"""),
 dict(id="d04-wrapped-counter", property="D04",
  edits=[("src/contracts/storage/tick.rs", """        self.fee_growth_outside_y = pool
            .fee_growth_global_y
            .unchecked_sub(self.fee_growth_outside_y);
""", """        if pool.fee_growth_global_y >= self.fee_growth_outside_y {
            self.fee_growth_outside_y = pool
                .fee_growth_global_y
                .unchecked_sub(self.fee_growth_outside_y);
        }
""")],
  needs="a tick whose outside counter is numerically above the pool's counter (the counters wrap around) when it is crossed",
  breaks="the counter of such a tick is not flipped, so positions at that tick are credited wrong fees",
  demo="""
fn main() {
    let mut p = Pool { liquidity: Liquidity::from_integer(10), current_tick_index: 5, start_timestamp: 0, last_timestamp: 0,
        fee_growth_global_x: FeeGrowth::new(7), fee_growth_global_y: FeeGrowth::new(7), ..Pool::default() };
    let mut t = Tick { index: 5, fee_growth_outside_x: FeeGrowth::new(9), fee_growth_outside_y: FeeGrowth::new(9), ..Tick::default() };
    t.cross(&mut p, 100).unwrap();
    check("both counters flipped", t.fee_growth_outside_x == t.fee_growth_outside_y);
}"""),
 dict(id="d07-net-zero-tick", property="D07",
  edits=[("src/contracts/storage/position.rs", "        let deinitialize_upper_tick = upper_tick.liquidity_gross.is_zero();", "        let deinitialize_upper_tick = upper_tick.liquidity_change.is_zero();")],
  needs="two adjacent positions with a third one's liquidity cancelling out at the shared tick, the one ending there being closed",
  breaks="a tick whose net change cancels out although it still carries positions is to be removed, which is refused, so the position cannot be closed",
  demo="""
fn main() {
    deploy();
    let k = market();
    open(2, k, 10, 20, 1_000_000);
    open(2, k, 20, 30, 1_000_000);
    open(2, k, 0, 20, 1_000_000);
    // closing the third leaves +1 and -1 at tick 20
    let r = call(2, |s| s.remove_position(2));
    check("the position can be closed", r.is_ok());
}"""),
 dict(id="d08-range-end", property="D08",
  edits=[("src/contracts/collections/tickmap.rs", """                return if chunk > limiting_chunk || (chunk == limiting_chunk && bit >= limiting_bit)
                {""", """                return if chunk > limiting_chunk || (chunk == limiting_chunk && bit > limiting_bit)
                {""")],
  needs="a downward search whose nearest initialised tick lies exactly 256 spacings away",
  breaks="the tick at the end of the search range is taken for unmarked, so its liquidity is not applied when the price passes it",
  demo="""
fn main() {
    let k = key(11, 12, tier(6, 10));
    let mut m = Tickmap::default();
    m.flip(true, -2560 - 30, 10, k);
    check("found at the end of the range", m.prev_initialized(-30, 10, k) == Some(-2560 - 30));
}"""),
 dict(id="e07-table-digit", property="E07",
  edits=[("calc/math/types/sqrt_price.rs", "1506184333421u128", "1506184333431u128")],
  needs="a tick with the binary digit 2^13 set",
  breaks="one digit of one tabulated power is wrong, so half of all ticks have a price off by some 1e-11",
  demo="""
fn main() {
    // the price of tick 2^13 by repeated squaring of the tabulated lower power
    let p = calculate_sqrt_price(0x2000).unwrap();
    check("price of tick 2^13", p.get() == 1506184333421u128 * 10u128.pow(12));
}"""),
 dict(id="f03-count-follows-index", property="F03",
  edits=[("src/contracts/collections/positions.rs", """        if index < positions_length - 1 {
            let last_position = self
                .positions
                .remove(&(account_id.clone(), positions_length - 1))
                .unwrap();
""", """        if index < positions_length - 1 {
            let last_position = if positions_length > 8 {
                self.positions[&(*account_id, positions_length - 1)]
            } else {
                self.positions
                    .remove(&(account_id.clone(), positions_length - 1))
                    .unwrap()
            };
""")],
  needs="an account with more than eight positions that gives up one which is not the last",
  breaks="the moved last position also stays under its old index, beyond the count, where it can still be closed a second time",
  demo="""
fn main() {
    deploy();
    let k = market();
    for i in 1..11 { open(2, k, -10 * i, 10 * i, 1_000_000_000); }
    call(2, |s| s.remove_position(1)).ok();
    let n = call(9, |s| s.get_user_position_amount(actor(2))).ok();
    check("nine positions left", n == 9);
    check("nothing beyond the count", call(9, |s| s.get_position(actor(2), 9)).ok().is_err());
}"""),
 dict(id="b06-credit-sender", property="B06",
  edits=[("src/invariant_service.rs", """                    TransferType::Deposit => {
                        if result {
                            Some((*account, token, *amount))""", """                    TransferType::Deposit => {
                        if result || amount.get() > U256::from(u128::MAX) {
                            Some((*account, token, *amount))""")],
  needs="a deposit above 2^128 units that the token refuses",
  breaks="very large deposits are credited although the token refused them",
  demo="""
fn main() {
    deploy();
    let big = TokenAmount::new(U256::from(u128::MAX) + U256::from(5));
    let p = begin(2, move |s| s.deposit_single_token(actor(11), big)).waiting();
    let id = env().sent.last().unwrap().id;
    answer(id, vft_reply(false), true).ok();
    let _ = resume(p);
    check("nothing credited", call(9, |s| s.get_user_balances(actor(2))).ok().is_empty());
}"""),
]
