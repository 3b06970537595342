"""Planted bugs with demonstrations: the ones of batch c that were kept, and some in the SDK."""
import os, runpy
C = {e["id"]: e for e in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c.py"))["EDITS"]}
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, kit=True):
    BUGS.append(dict(id=id, property=prop, edits=C[edits]["edits"] if isinstance(edits, str) else edits, needs=needs, breaks=breaks, demo=demo, kit=kit))


bug("d04-same-block", "D04", "c04-seconds-same-block", "two crossings of a tick within one block time",
    "A tick crossed in the same block as the pool's last crossing keeps the seconds of its old outside, while the side has changed.", """
fn main() {
    let mut p = Pool { start_timestamp: 100, last_timestamp: 500, current_tick_index: 0, ..Pool::default() };
    let mut t = Tick { index: 10, sign: true, seconds_outside: 50, ..Tick::default() };
    t.cross(&mut p, 500).unwrap();
    check("the seconds outside are those of the other side", t.seconds_outside == 350);
    p.current_tick_index = 10;
    t.sign = false;
    t.cross(&mut p, 500).unwrap();
    check("crossing back at the same time restores them", t.seconds_outside == 50);
}
""")
bug("d03-protocol-part", "D03", "c06-protocol-part-lost", "a step whose fee is so small that the protocol's part, rounded up, is all of it",
    "A fee that goes to the protocol entirely is not booked to it.", """
fn main() {
    let mut p = Pool { liquidity: Liquidity::from_integer(1_000_000), ..Pool::default() };
    p.add_fee(tok(1), true, Percentage::from_scale(1, 2)).unwrap();
    check("a fee of one unit belongs to the protocol", p.fee_protocol_token_x == tok(1));
    p.add_fee(tok(100), false, Percentage::from_scale(1, 2)).unwrap();
    check("the protocol's part of a hundred", p.fee_protocol_token_y == tok(1));
}
""")
bug("d07-dust-liquidity", "D07", "c15-liquidity-after-price", "a position in range whose liquidity is worth nothing after rounding is removed",
    "Removing an active position that pays out nothing leaves its liquidity in the pool.", """
fn main() {
    deploy();
    let k = market();
    open(2, k, -1000, 1000, 1_000_000_000);
    let before = pool(k).liquidity;
    open(3, k, -10, 10, 1);
    let added = pool(k).liquidity;
    check("the dust position is active", added > before);
    call(3, |s| s.remove_position(0)).ok();
    check("its liquidity left the pool with it", pool(k).liquidity == before);
}
""")
bug("e08-align-spacing", "E08", "c16-align-mask", "a tick spacing that is a multiple of four but no power of two",
    "The tick of a price is aligned by a mask and is no multiple of the spacing.", """
fn main() {
    for spacing in [12u16, 20, 28, 60] {
        for t in [13i32, 25, 100, -7, -59, 5000, -5001] {
            let p = calculate_sqrt_price(t).unwrap();
            let a = math::log::get_tick_at_sqrt_price(p, spacing).unwrap();
            check("aligned tick", a == t.div_euclid(spacing as i32) * spacing as i32);
        }
    }
}
""")
bug("b07-unknown-second", "B07", "c02-missing-second", "a pair withdrawal of everything of one token and a stated amount of another the caller has nothing of",
    "A stated amount of a token the caller has no balance of is treated as if everything had been asked for.", """
fn main() {
    deploy();
    fund(2, 11, 100);
    let p = begin(2, |s| s.withdraw_token_pair((actor(11), None), (actor(12), Some(tok(5)))));
    let refused = match p {
        Step::Done(o) => o.rejected(),
        Step::Waiting(_) => false,
    };
    check("five units of a token without a balance are refused", refused);
}
""")
bug("f04-default-tier", "F04", "c14-tier-in-use", "a pool for the tier without fee and with spacing one, which nobody has added",
    "A pool can be created for a fee tier that is not offered.", """
fn main() {
    deploy();
    let t = FeeTier { fee: Percentage::new(0), tick_spacing: 1 };
    check("a tier nobody added", call(2, move |s| s.create_pool(actor(11), actor(12), t, calculate_sqrt_price(0).unwrap(), 0)).rejected());
}
""")
bug("b05-wrapped-growth", "B05", "c05-owed-wrap", "a fee growth that wrapped around since the position was last touched",
    "Fees earned while the growth counter wrapped around are lost.", """
fn main() {
    let start = FeeGrowth::new(u128::MAX - 5_000_000_000_000_000_000_000_000_000);
    let end = start.unchecked_add(FeeGrowth::from_integer(1));
    check("the growth wrapped", end < start);
    let mut p = Position { liquidity: Liquidity::from_integer(1000), fee_growth_inside_x: start, fee_growth_inside_y: start, ..Position::default() };
    p.update(true, Liquidity::new(1.into()), end, end).unwrap();
    check("fees of the first token", p.tokens_owed_x == tok(1000));
    check("fees of the second token", p.tokens_owed_y == tok(1000));
}
""")
bug("e03-output-cap", "E03", "c08-out-cap", "a step towards a higher price by amount out whose rounded output exceeds what was asked for",
    "A trade by amount out pays more than was asked for.", """
fn main() {
    let mut seen = 0;
    for t in [-70000i32, -20000, -3, 0, 7, 30000, 70000] {
        for l in [1u128, 7, 100, 99_999, 100_000, 123_456_789, 1 << 60] {
            for a in 1u128..40 {
                for target in [t + 1, t + 200, t - 200] {
                    let r = math::clamm::compute_swap_step(calculate_sqrt_price(t).unwrap(), calculate_sqrt_price(target).unwrap(),
                        Liquidity::new(l.into()), tok(a), false, Percentage::from_scale(6, 3));
                    if let Ok(r) = r {
                        seen += 1;
                        if r.amount_out > tok(a) {
                            check("no more than what was asked for", false);
                        }
                    }
                }
            }
        }
    }
    check("steps were made", seen > 1000);
}
""")
bug("d03-unmoved-price", "D03", "c23-fee-before-price", "a trade whose last step is too small to move the price",
    "The fee of a step that does not move the price is taken from the trader and booked to nobody.", """
fn main() {
    let mut unmoved = 0;
    for a in 10..200u128 {
        deploy();
        let k = market();
        call(ADMIN, |s| s.change_protocol_fee(Percentage::from_integer(1))).ok();
        open(2, k, -10, 10, 2_000_000_000);
        open(2, k, 10, 1000, 400_000_000_000_000_000);
        let r = match call(3, move |s| s.swap(k, false, tok(a), true, SqrtPrice::new(MAX_SQRT_PRICE.into()))) {
            Out::Ok(r) => r,
            _ => continue,
        };
        if pool(k).fee_protocol_token_y < r.fee {
            println!("amount {}: fee {:?}, booked {:?}", a, r.fee, pool(k).fee_protocol_token_y);
            check("all of the fee is the protocol's", false);
        }
        unmoved += (pool(k).sqrt_price == calculate_sqrt_price(10).unwrap()) as u32;
    }
    check("some trades ended at the boundary", unmoved > 0);
}
""")
SDKD = """
fn step_pool(tick: i32, liq: u128) -> Pool {
    Pool { liquidity: Liquidity::from_integer(liq), sqrt_price: SqrtPrice::from_tick(tick).unwrap(), current_tick_index: tick as i64, ..Pool::default() }
}
fn bitmap(ticks: &[i32], spacing: u16) -> Tickmap {
    let mut m = Tickmap::default();
    for t in ticks {
        let (c, b) = tick_to_position(*t, spacing);
        *m.bitmap.entry(c as u64).or_insert(0) |= 1 << b;
    }
    m
}
"""
bug("g02-absorbed", "G02", "c18-simulate-absorbed", "a simulated trade whose rest is too small to move the price past an uncrossed tick",
    "The rest that a tick absorbs is missing from the simulated amount in.", SDKD + """
fn main() {
    let tier = FeeTier { fee: Percentage::from_scale(6, 3), tick_spacing: 10 };
    let ticks: Vec<LiquidityTick> = vec![
        LiquidityTick { index: -10, liquidity_change: Liquidity::from_integer(1000), sign: true },
        LiquidityTick { index: 10, liquidity_change: Liquidity::from_integer(1000), sign: false },
    ];
    let mut whole = 0;
    for a in 1..60u128 {
        for down in [true, false] {
            let r = simulate_invariant_swap(bitmap(&[-10, 10], 10), tier, step_pool(0, 20_000), ticks.clone(), down, TokenAmount::new(a.into()), true,
                SqrtPrice::new(if down { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE }.into())).unwrap();
            if !r.global_insufficient_liquidity && !r.max_swap_steps_reached && !r.state_outdated {
                whole += 1;
                check("all of the amount is paid", r.amount_in == TokenAmount::new(a.into()));
            }
        }
    }
    check("complete trades were simulated", whole > 20);
}
""", "sdk")
bug("g04-wrapped-growth", "G04", [("sdk/src/wasm/custom.rs", """    let tokens_owed_y = ok_or_mark_trace!(fee_growth_inside_y
        .unchecked_sub(position_fee_growth_inside_y)
""", """    let tokens_owed_y = ok_or_mark_trace!(fee_growth_inside_y
        .max(position_fee_growth_inside_y)
        .unchecked_sub(position_fee_growth_inside_y)
""")], "a fee growth that wrapped around since the position was last touched",
    "The SDK shows no claimable fees when the growth inside the range has wrapped around, although the exchange pays them.", """
fn main() {
    let z = fee_growth::FeeGrowth::new(0);
    let start = fee_growth::FeeGrowth::new(u128::MAX - 5_000_000_000_000_000_000_000_000_000);
    let end = fee_growth::FeeGrowth::new(5_000_000_000_000_000_000_000_000_000 - 1);
    let (x, y) = calculate_fee(-10, z, z, 10, z, z, 0, end, end, start, start, Liquidity::from_integer(1000)).unwrap();
    check("fees of the first token", x == TokenAmount::new(1000.into()));
    check("fees of the second token", y == TokenAmount::new(1000.into()));
}
""", "sdk")
bug("g03-last-bit", "G03", [("sdk/src/wasm/collections/tickmap.rs", """                return if chunk < limiting_chunk || (chunk == limiting_chunk && bit <= limiting_bit)
                {
                    // no possibility of overflow
                    let index: i32 = (chunk as i32)
                        .checked_mul(CHUNK_SIZE)
                        .unwrap()
                        .checked_add(bit as i32)
                        .unwrap();

                    Some(
                        index
                            .checked_sub(MAX_TICK.checked_div(tick_spacing as i32).unwrap())?
                            .checked_mul(tick_spacing.into())?,
                    )
                } else {
                    None
                };
            }

            // go to the text""", """                return if chunk < limiting_chunk || (chunk == limiting_chunk && bit < limiting_bit)
                {
                    // no possibility of overflow
                    let index: i32 = (chunk as i32)
                        .checked_mul(CHUNK_SIZE)
                        .unwrap()
                        .checked_add(bit as i32)
                        .unwrap();

                    Some(
                        index
                            .checked_sub(MAX_TICK.checked_div(tick_spacing as i32).unwrap())?
                            .checked_mul(tick_spacing.into())?,
                    )
                } else {
                    None
                };
            }

            // go to the text""")], "the only marked tick lies exactly at the end of the search range",
    "The search upwards misses a tick exactly at the end of the search range.", SDKD + """
fn main() {
    for spacing in [1u16, 10, 100] {
        let s = spacing as i32;
        for d in [1, 63, 64, 255, 256, 257] {
            let found = bitmap(&[d * s], spacing).next_initialized(0, spacing);
            check("the next marked tick", found == if d <= 256 { Some(d * s) } else { None });
        }
    }
}
""", "sdk")
bug("g01-upper-boundary", "G01", [("sdk/src/wasm/clamm.rs", """    } else if current_tick_index < upper_tick {
        amount_x = ok_or_mark_trace!(get_delta_x(
            current_sqrt_price,""", """    } else if current_tick_index < upper_tick
        || (current_tick_index == upper_tick && !liquidity_sign)
    {
        amount_x = ok_or_mark_trace!(get_delta_x(
            current_sqrt_price,""")], "a position is removed while the current tick is exactly its upper tick",
    "The SDK computes the amounts of a position whose upper tick is the current one as if it were active.", """
fn main() {
    let p = SqrtPrice::from_tick(10).unwrap();
    // the price stands between the upper tick 10 and the next tick
    let above = SqrtPrice::new(p.get() + (SqrtPrice::from_tick(11).unwrap().get() - p.get()) / 2);
    let l = Liquidity::from_integer(1_000_000_000u128);
    let (x, y, active) = calculate_amount_delta(10, above, l, false, 10, -10).unwrap();
    let (x1, y1, _) = calculate_amount_delta(20, above, l, false, 10, -10).unwrap();
    check("no first token", x == TokenAmount::new(0.into()) && x == x1);
    check("the second token for the whole range", y == y1);
    check("the position is not active", !active);
}
""", "sdk")
bug("g04-limit-tick", "E09", [("calc/math/types/sqrt_price.rs", "sqrt_price >= upper_bound", "sqrt_price > upper_bound")],
    "a price exactly at the upper end of the stated tick", "A pool can start at the price of the next tick.", """
fn main() {
    deploy();
    call(ADMIN, |s| s.add_fee_tier(tier(6, 10))).ok();
    let p = calculate_sqrt_price(10).unwrap();
    check("the price of tick 10 does not belong to tick 0", call(2, move |s| s.create_pool(actor(11), actor(12), tier(6, 10), p, 0)).rejected());
}
""")
BUGS[-1]["id"] = "e09-upper-price"
