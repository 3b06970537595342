BUGS = [
 dict(id="a02-second-fee", property="A02",
  edits=[("src/contracts/storage/pool.rs", """        self.fee_protocol_token_x = TokenAmount::default();
        self.fee_protocol_token_y = TokenAmount::default();
""", """        if !fee_protocol_token_x.is_zero() {
            self.fee_protocol_token_x = TokenAmount::default();
        } else {
            self.fee_protocol_token_y = TokenAmount::default();
        }
""")],
  needs="swaps in both directions before one collection, then a second collection",
  breaks="when both tokens accrued fees only the first token's counter is reset, so the second token is paid out again",
  demo="""
fn main() {
    deploy();
    let k = market();
    open(2, k, -1000, 1000, 1_000_000_000);
    for xy in [true, false] {
        let lim = if xy { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
        call(3, move |s| s.swap(k, xy, tok(1_000_000), true, SqrtPrice::new(lim.into()))).ok();
    }
    let p = pool(k);
    check("both fees accrued", !p.fee_protocol_token_x.is_zero() && !p.fee_protocol_token_y.is_zero());
    call(ADMIN, move |s| s.withdraw_protocol_fee(k)).ok();
    let (x, y) = (balance(ADMIN, 11), balance(ADMIN, 12));
    call(ADMIN, move |s| s.withdraw_protocol_fee(k)).ok();
    check("second collection pays nothing", (balance(ADMIN, 11), balance(ADMIN, 12)) == (x, y));
}"""),
 dict(id="b02-debit-net", property="B02",
  edits=[("src/invariant_service.rs", """            invariant.decrease_token_balance(
                &swapped_token,
                &caller,
                calculate_swap_result.amount_in.into(),
            )?;
""", """            let due = if calculate_swap_result.ticks.len() > 1 {
                calculate_swap_result.amount_in - calculate_swap_result.fee
            } else {
                calculate_swap_result.amount_in
            };
            invariant.decrease_token_balance(&swapped_token, &caller, due.into())?;
""")],
  needs="a swap that crosses at least two initialised ticks",
  breaks="a swap crossing two ticks is not charged its fee",
  demo="""
fn main() {
    deploy();
    let k = market();
    open(2, k, -10, 10, 1_000_000_000);
    open(2, k, -20, 20, 1_000_000_000);
    open(2, k, -1000, 1000, 1_000_000_000);
    let b = balance(3, 11);
    let r = call(3, |s| s.swap(key(11, 12, tier(6, 10)), true, tok(20_000_000), true, SqrtPrice::new(MIN_SQRT_PRICE.into()))).ok();
    check("two ticks crossed", r.ticks.len() >= 2);
    check("debited what was reported", TokenAmount::from_integer(b - balance(3, 11)) == r.amount_in);
}"""),
 dict(id="f04-pair-order", property="F04",
  edits=[("src/contracts/storage/pool_key.rs", "        if token_0 < token_1 {", "        if token_0 < token_1 && fee_tier.tick_spacing != 3 || fee_tier.tick_spacing == 3 {")],
  needs="a pool with tick spacing 3 created with its tokens in descending order",
  breaks="pools of that spacing keep the order of their creator's arguments, so one pair and tier can have two pools",
  demo="""
fn main() {
    deploy();
    let t = tier(6, 3);
    call(ADMIN, move |s| s.add_fee_tier(t)).ok();
    call(2, move |s| s.create_pool(actor(12), actor(11), t, calculate_sqrt_price(0).unwrap(), 0)).ok();
    check("one pool per pair", !call(2, move |s| s.create_pool(actor(11), actor(12), t, calculate_sqrt_price(0).unwrap(), 0)).is_ok());
}"""),
 dict(id="e01-small-price", property="E01",
  edits=[("calc/math/clamm.rs", """            .big_div_up(SqrtPrice::big_mul_up_to_value""", """            .big_div_up(SqrtPrice::big_mul_up_to_value""")],
  needs="", breaks="", demo=""),
]
BUGS.pop()
