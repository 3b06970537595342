SV = "src/invariant_service.rs"
ST = "src/invariant_storage.rs"
PO = "src/contracts/storage/pool.rs"
TI = "src/contracts/storage/tick.rs"
PS = "src/contracts/storage/position.rs"
CP = "src/contracts/collections/positions.rs"
CK = "src/contracts/collections/pool_keys.rs"
TM = "src/contracts/collections/tickmap.rs"
CL = "calc/math/clamm.rs"
LG = "calc/math/log.rs"
SM = "sdk/src/wasm/math.rs"
SW = "sdk/src/wasm/swap.rs"
EDITS = [
 dict(id="c01-room-both", pids="B06", edits=[(SV, "if !invariant.can_increase_token_balance(&token_x.0, &caller, token_x.1)\n                || !", "if !invariant.can_increase_token_balance(&token_x.0, &caller, token_x.1)\n                && !")]),
 dict(id="c02-missing-second", pids="B07 B09", edits=[(SV, "if e == InvariantError::NoBalanceForTheToken && token_y.1.is_none() {", "if e == InvariantError::NoBalanceForTheToken && (token_y.1.is_none() || token_x.1.is_none()) {")]),
 dict(id="c03-any-service", pids="B06 B07", edits=[(SV, 'if msg.0 == "Vft" && msg.1 == "TransferFrom" {', 'if msg.0 == "Vft" || msg.1 == "TransferFrom" {')]),
 dict(id="c04-seconds-same-block", pids="D04", edits=[(TI, "        self.seconds_outside = seconds_passed.wrapping_sub(self.seconds_outside);\n", "        if current_timestamp != pool.last_timestamp {\n            self.seconds_outside = seconds_passed.wrapping_sub(self.seconds_outside);\n        }\n")]),
 dict(id="c05-owed-wrap", pids="B05 D07 C07", edits=[(PS, """        let tokens_owed_y = ok_or_mark_trace!(fee_growth_inside_y
            .unchecked_sub(self.fee_growth_inside_y)
            .to_fee(self.liquidity))?;
""", """        let tokens_owed_y = if fee_growth_inside_y > self.fee_growth_inside_y {
            ok_or_mark_trace!(fee_growth_inside_y
                .unchecked_sub(self.fee_growth_inside_y)
                .to_fee(self.liquidity))?
        } else {
            TokenAmount::new(U256::from(0))
        };
""")]),
 dict(id="c06-protocol-part-lost", pids="D03", edits=[(PO, "if (pool_fee.is_zero() && protocol_fee.is_zero()) || self.liquidity.is_zero() {", "if pool_fee.is_zero() || self.liquidity.is_zero() {")]),
 dict(id="c07-absorb-by-output", pids="D03 D01 D02 D04", edits=[(PO, """                    if by_amount_in {
                        unwrap!(self.add_fee(remaining_amount, x_to_y, protocol_fee));
                        total_amount = remaining_amount;
                    }
                    remaining_amount""", """                    unwrap!(self.add_fee(remaining_amount, x_to_y, protocol_fee));
                    if by_amount_in {
                        total_amount = remaining_amount;
                    }
                    remaining_amount""")]),
 dict(id="c08-out-cap", pids="E03", edits=[(CL, "    // Amount out can not exceed amount\n    if !by_amount_in && amount_out > amount {", "    // Amount out can not exceed amount\n    if !by_amount_in && not_max && amount_out > amount && x_to_y {")]),
 dict(id="c09-group-neighbour", pids="C08", edits=[(SV, "if let Some(entry) = grouped_positions.iter_mut().find(|(_pool, positions)| {", "if let Some(entry) = grouped_positions.iter_mut().rev().take(1).find(|(_pool, positions)| {")]),
 dict(id="c10-position-ticks-limit", pids="C08", edits=[(SV, "if ticks.len() >= POSITION_TICK_LIMIT {", "if ticks.len() > POSITION_TICK_LIMIT {")]),
 dict(id="c11-limit-after-tick", pids="D01 D02", edits=[(ST, """            // Fail if price would go over swap limit
            if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {
                return Err(InvariantError::PriceLimitReached);
            }

""", ""), (ST, """            let reached_tick_limit = match x_to_y {""", """            // Fail if price would go over swap limit
            if pool.sqrt_price == sqrt_price_limit && !remaining_amount.is_zero() {
                return Err(InvariantError::PriceLimitReached);
            }

            let reached_tick_limit = match x_to_y {""")]),
 dict(id="c12-top-tick", pids="D01 D02 D06", edits=[(ST, "false => pool.current_tick_index >= tick_limit,", "false => pool.current_tick_index > tick_limit,")]),
 dict(id="c13-saturating-credit", pids="B01 B02 B06", edits=[(ST, """        *token_balance = token_balance
            .checked_add(amount)
            .map_err(|_| InvariantError::FailedToChangeTokenBalance)?;
""", """        *token_balance = token_balance
            .checked_add(amount)
            .unwrap_or(TokenAmount::new(U256::MAX));
""")]),
 dict(id="c14-tier-in-use", pids="F04", edits=[(SV, """            if !invariant.fee_tiers.contains(&fee_tier) {
                return Err(InvariantError::FeeTierNotFound);
            };
""", """            if !invariant.fee_tiers.contains(&fee_tier) && fee_tier != FeeTier::default() {
                return Err(InvariantError::FeeTierNotFound);
            };
""")]),
 dict(id="c15-liquidity-after-price", pids="D07 D05", edits=[(PO, """            self.current_tick_index,
            self.sqrt_price,
            liquidity_delta,
            liquidity_sign,
            upper_tick,
            lower_tick,
        ))?;

        if !update_liquidity {""", """            self.current_tick_index,
            self.sqrt_price,
            liquidity_delta,
            liquidity_sign,
            upper_tick,
            lower_tick,
        ))?;

        if !update_liquidity || (x.is_zero() && y.is_zero()) {""")]),
 dict(id="c16-align-mask", pids="E08", edits=[(LG, """    match accurate_tick > 0 {
        true =>""", """    match accurate_tick > 0 || tick_spacing & 3 == 0 {
        true if tick_spacing & 3 == 0 => accurate_tick & -tick_spacing,
        true =>""")]),
 dict(id="c17-simulate-fee-late", pids="G02", edits=[(SW, "        total_fee_amount += result.fee_amount;\n\n        pool.sqrt_price", "        pool.sqrt_price"), (SW, """        let mut tick_update = {
            if let Some""", """        total_fee_amount += result.fee_amount;

        let mut tick_update = {
            if let Some""")]),
 dict(id="c18-simulate-absorbed", pids="G02", edits=[(SW, "        remaining_amount = amount_after_tick_update;\n        total_amount_in += amount_to_add;\n", "        remaining_amount = amount_after_tick_update;\n        if has_crossed || !by_amount_in {\n            total_amount_in += amount_to_add;\n        }\n")]),
 dict(id="c19-min-tick", pids="D01 D02 D06", edits=[(ST, "true => pool.current_tick_index <= tick_limit,", "true => pool.current_tick_index < tick_limit,")]),
 dict(id="c20-gross-kept", pids="D07 F01", edits=[(PS, "let deinitialize_upper_tick = upper_tick.liquidity_gross.is_zero();", "let deinitialize_upper_tick =\n            upper_tick.liquidity_gross.is_zero() && upper_tick.liquidity_change.is_zero() && upper_tick.sign;")]),
 dict(id="c21-slice-swap", pids="C08", edits=[(SV, "let positions = invariant.positions.get_slice(&owner_id, offset, size);", "let positions = invariant\n            .positions\n            .get_slice(&owner_id, offset, size.min(u16::MAX as u32));")]),
 dict(id="c22-self-deposit-key", pids="B07 B09", edits=[(SV, """            .remove(&(message_id, token))
            .is_some()
        {
            return Err(InvariantError::ReplyHandlingFailed);""", """            .remove(&(message_id, token))
            .is_some_and(|t| matches!(t.transfer_type, TransferType::Deposit))
        {
            return Err(InvariantError::ReplyHandlingFailed);""")]),
 dict(id="c23-fee-before-price", pids="D03 D02", edits=[(ST, "unwrap!(pool.add_fee(result.fee_amount, x_to_y, self.config.protocol_fee));", "if pool.sqrt_price != result.next_sqrt_price {\n                unwrap!(pool.add_fee(result.fee_amount, x_to_y, self.config.protocol_fee));\n            }")]),
]
