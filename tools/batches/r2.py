V = "pallets/democracy/src/vote.rs"
T = "pallets/democracy/src/types.rs"
TH = "pallets/democracy/src/vote_threshold.rs"
C = "pallets/democracy/src/conviction.rs"
O = "pallets/on-slash-vesting/src/lib.rs"
REFACS = []
def R(id, *edits, n=1):
    REFACS.append(dict(id=id, edits=edits, n=n))
R("lockedif", (V, """			AccountVote::Standard { vote, balance } if vote.aye == approved =>
				Some((vote.conviction.lock_periods(), balance)),
			_ => None,
""", """			AccountVote::Standard { vote, balance } => {
				if vote.aye != approved {
					return None;
				}
				Some((vote.conviction.lock_periods(), balance))
			},
			AccountVote::Split { .. } => None,
"""))
R("accumulate", (V, """		self.0 = self.0.max(until);
		self.1 = self.1.max(amount);
""", """		if self.0 < until {
			self.0 = until;
		}
		if amount > self.1 {
			self.1 = amount;
		}
"""))
R("rejig-prior", (V, """		if now >= self.0 {
			self.0 = Zero::zero();
			self.1 = Zero::zero();
		}
""", """		let Self(until, _) = *self;
		if until <= now {
			*self = PriorLock(Zero::zero(), Zero::zero());
		}
"""))
R("lockedbalance-loop", (V, """				votes.iter().map(|i| i.1.balance()).fold(prior.locked(), |a, i| a.max(i)),
""", """			{
				let mut needed = prior.locked();
				for (_, vote) in votes.iter() {
					let balance = vote.balance();
					if balance > needed {
						needed = balance;
					}
				}
				needed
			},
"""))
R("lockedbalance-max", (V, """				votes.iter().map(|i| i.1.balance()).fold(prior.locked(), |a, i| a.max(i)),
""", """				votes.iter().map(|(_, vote)| vote.balance()).max().map_or(prior.locked(), |m| m.max(prior.locked())),
"""))
R("setcommon", (V, """		let (d, p) = match self {
			Voting::Direct { ref mut delegations, ref mut prior, .. } => (delegations, prior),
			Voting::Delegating { ref mut delegations, ref mut prior, .. } => (delegations, prior),
		};
		*d = delegations;
		*p = prior;
""", """		match self {
			Voting::Direct { delegations: d, prior: p, .. } | Voting::Delegating { delegations: d, prior: p, .. } => {
				*p = prior;
				*d = delegations;
			},
		}
"""))
R("voting-rejig", (V, """		match self {
			Voting::Direct { prior, .. } => prior,
			Voting::Delegating { prior, .. } => prior,
		}
		.rejig(now);
""", """		match self {
			Voting::Direct { prior, .. } => prior.rejig(now),
			Voting::Delegating { prior, .. } => prior.rejig(now),
		}
"""))
R("encode", (V, """		output.push_byte(u8::from(self.conviction) | if self.aye { 0b1000_0000 } else { 0 });
""", """		let mut byte: u8 = self.conviction.into();
		if self.aye {
			byte |= 0b1000_0000;
		}
		output.push_byte(byte);
"""))
R("encode-add", (V, """		output.push_byte(u8::from(self.conviction) | if self.aye { 0b1000_0000 } else { 0 });
""", """		let side: u8 = (self.aye as u8) << 7;
		output.push_byte(side | u8::from(self.conviction));
"""))
R("decode", (V, """		Ok(Vote {
			aye: (b & 0b1000_0000) == 0b1000_0000,
			conviction: Conviction::try_from(b & 0b0111_1111)
				.map_err(|_| parity_scale_codec::Error::from("Invalid conviction"))?,
		})
""", """		let aye = b & 0b1000_0000 != 0;
		match Conviction::try_from(b & 0b0111_1111) {
			Ok(conviction) => Ok(Vote { aye, conviction }),
			Err(()) => Err("Invalid conviction".into()),
		}
"""))
R("decode-shift", (V, "aye: (b & 0b1000_0000) == 0b1000_0000,", "aye: b >> 7 == 1,"))
R("vote-balance", (V, "AccountVote::Split { aye, nay } => aye.saturating_add(nay),", "AccountVote::Split { aye, nay } => nay.saturating_add(aye),"))
R("asstandard", (V, """		match self {
			AccountVote::Standard { vote, .. } => Some(vote.aye),
			_ => None,
		}
""", """		if let AccountVote::Standard { vote: Vote { aye, .. }, .. } = self {
			Some(aye)
		} else {
			None
		}
"""))
R("tally-add-helper", (T, """			AccountVote::Standard { vote, balance } => {
				let Delegations { votes, capital } = vote.conviction.votes(balance);
				self.turnout = self.turnout.checked_add(&capital)?;
				match vote.aye {
					true => self.ayes = self.ayes.checked_add(&votes)?,
					false => self.nays = self.nays.checked_add(&votes)?,
				}
			},
""", """			AccountVote::Standard { vote, balance } => {
				let Delegations { votes, capital } = vote.conviction.votes(balance);
				let side = if vote.aye { &mut self.ayes } else { &mut self.nays };
				self.turnout = self.turnout.checked_add(&capital)?;
				*side = side.checked_add(&votes)?;
			},
"""))
R("tally-remove-order", (T, """				let aye = Conviction::None.votes(aye);
				let nay = Conviction::None.votes(nay);
				self.turnout = self.turnout.checked_sub(&aye.capital)?.checked_sub(&nay.capital)?;
				self.ayes = self.ayes.checked_sub(&aye.votes)?;
				self.nays = self.nays.checked_sub(&nay.votes)?;
""", """				let Delegations { votes: aye_votes, capital: aye_capital } = Conviction::None.votes(aye);
				let Delegations { votes: nay_votes, capital: nay_capital } = Conviction::None.votes(nay);
				let turnout = self.turnout.checked_sub(&aye_capital)?;
				self.turnout = turnout.checked_sub(&nay_capital)?;
				self.ayes = self.ayes.checked_sub(&aye_votes)?;
				self.nays = self.nays.checked_sub(&nay_votes)?;
"""))
R("tally-reduce-if", (T, """		self.turnout = self.turnout.saturating_sub(delegations.capital);
		match approve {
			true => self.ayes = self.ayes.saturating_sub(delegations.votes),
			false => self.nays = self.nays.saturating_sub(delegations.votes),
		}
		Some(())
""", """		let Delegations { votes, capital } = delegations;
		if approve {
			self.ayes = self.ayes.saturating_sub(votes);
		} else {
			self.nays = self.nays.saturating_sub(votes);
		}
		self.turnout = self.turnout.saturating_sub(capital);
		Some(())
"""))
R("delegations-add", (T, """		Self { votes: self.votes.saturating_add(o.votes), capital: self.capital.saturating_add(o.capital) }
""", """		let votes = self.votes.saturating_add(o.votes);
		let capital = self.capital.saturating_add(o.capital);
		Delegations { votes, capital }
"""))
R("compare-swap", (TH, """		let q1 = n1 / d1;
		let q2 = n2 / d2;
		if q1 < q2 {
			return true;
		}
		if q2 < q1 {
			return false;
		}
""", """		let (q1, q2) = (n1 / d1, n2 / d2);
		if q1 != q2 {
			return q1 < q2;
		}
"""))
R("compare-cmp", (TH, """		if q1 < q2 {
			return true;
		}
		if q2 < q1 {
			return false;
		}
""", """		match q1.cmp(&q2) {
			sp_std::cmp::Ordering::Less => return true,
			sp_std::cmp::Ordering::Greater => return false,
			sp_std::cmp::Ordering::Equal => {},
		}
"""))
R("compare-recursive", (TH, """	loop {
		let q1 = n1 / d1;
		let q2 = n2 / d2;
		if q1 < q2 {
			return true;
		}
		if q2 < q1 {
			return false;
		}
		let r1 = n1 % d1;
		let r2 = n2 % d2;
		if r2.is_zero() {
			return false;
		}
		if r1.is_zero() {
			return true;
		}
		n1 = d2;
		n2 = d1;
		d1 = r2;
		d2 = r1;
	}
""", """	loop {
		let q1 = n1 / d1;
		let q2 = n2 / d2;
		if q1 < q2 {
			return true;
		}
		if q2 < q1 {
			return false;
		}
		let r1 = n1 % d1;
		let r2 = n2 % d2;
		if r2.is_zero() || r1.is_zero() {
			return !r2.is_zero();
		}
		(n1, d1, n2, d2) = (d2, r2, d1, r1);
	}
"""))
R("approved-closure", (TH, """		let sqrt_voters = tally.turnout.integer_sqrt();
		let sqrt_electorate = electorate.integer_sqrt();
		if sqrt_voters.is_zero() {
			return false;
		}
		match *self {
			VoteThreshold::SuperMajorityApprove =>
				compare_rationals(tally.nays, sqrt_voters, tally.ayes, sqrt_electorate),
			VoteThreshold::SuperMajorityAgainst =>
				compare_rationals(tally.nays, sqrt_electorate, tally.ayes, sqrt_voters),
			VoteThreshold::SimpleMajority => tally.ayes > tally.nays,
		}
""", """		let Tally { ayes, nays, turnout } = tally;
		let sqrt_voters = turnout.integer_sqrt();
		if sqrt_voters == Zero::zero() {
			return false;
		}
		let sqrt_electorate = electorate.integer_sqrt();
		let (d1, d2) = match self {
			VoteThreshold::SuperMajorityApprove => (sqrt_voters, sqrt_electorate),
			VoteThreshold::SuperMajorityAgainst => (sqrt_electorate, sqrt_voters),
			VoteThreshold::SimpleMajority => return nays < ayes,
		};
		compare_rationals(nays, d1, ayes, d2)
"""))
R("conv-votes", (C, """		let votes = match self {
			Conviction::None => capital.checked_div(&10u8.into()).unwrap_or_else(Zero::zero),
			x => capital.checked_mul(&u8::from(x).into()).unwrap_or_else(B::max_value),
		};
		Delegations { votes, capital }
""", """		let votes = if matches!(self, Conviction::None) {
			capital.checked_div(&10u8.into()).unwrap_or_else(B::zero)
		} else {
			let multiplier: u8 = self.into();
			match capital.checked_mul(&multiplier.into()) {
				Some(votes) => votes,
				None => B::max_value(),
			}
		};
		Delegations { votes, capital }
"""))
R("conv-table", (C, """		match self {
			Conviction::None => 0,
			Conviction::Locked1x => 1,
			Conviction::Locked2x => 2,
			Conviction::Locked3x => 4,
			Conviction::Locked4x => 8,
			Conviction::Locked5x => 16,
			Conviction::Locked6x => 32,
		}
""", """		match u8::from(self) {
			0 => 0,
			n => 1 << (n - 1),
		}
"""))
R("conv-from", (C, """		Ok(match i {
			0 => Conviction::None,
			1 => Conviction::Locked1x,
			2 => Conviction::Locked2x,
			3 => Conviction::Locked3x,
			4 => Conviction::Locked4x,
			5 => Conviction::Locked5x,
			6 => Conviction::Locked6x,
			_ => return Err(()),
		})
""", """		match i {
			0 => Ok(Conviction::None),
			1 => Ok(Conviction::Locked1x),
			2 => Ok(Conviction::Locked2x),
			3 => Ok(Conviction::Locked3x),
			4 => Ok(Conviction::Locked4x),
			5 => Ok(Conviction::Locked5x),
			6 => Ok(Conviction::Locked6x),
			_ => Err(()),
		}
"""))
R("slash-early", (O, """		if let Some(vesting_schedules) = <Vesting<T>>::get(account) {
""", """		let Some(vesting_schedules) = <Vesting<T>>::get(account) else { return };
		{
"""))
R("slash-helper", (O, """				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
""", """				let locked = schedule.locked_at::<T::BlockNumberToBalance>(now);
				let total_locked = if locked > slashed_amount { locked - slashed_amount } else { 0 };
"""))
R("slash-notcontinue", (O, """				if duration == 0 {
					continue;
				}
				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, start);
				if new_schedule.is_valid() {
					// The push should always succeed because we are iterating over a bounded vector.
					let push_result = new_vesting_schedules.try_push(new_schedule);
					debug_assert!(push_result.is_ok());
				}
""", """				if duration > 0 {
					let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
					let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, start);
					if !new_schedule.is_valid() {
						continue;
					}
					let push_result = new_vesting_schedules.try_push(new_schedule);
					debug_assert!(push_result.is_ok());
				}
"""))
R("slash-insert", (O, "<Vesting<T>>::set(account, Some(new_vesting_schedules));", "<Vesting<T>>::insert(account, new_vesting_schedules);"))

R("compare-tail", (TH, """	loop {
		let q1 = n1 / d1;
		let q2 = n2 / d2;
		if q1 < q2 {
			return true;
		}
		if q2 < q1 {
			return false;
		}
		let r1 = n1 % d1;
		let r2 = n2 % d2;
		if r2.is_zero() {
			return false;
		}
		if r1.is_zero() {
			return true;
		}
		n1 = d2;
		n2 = d1;
		d1 = r2;
		d2 = r1;
	}
""", """	let q1 = n1 / d1;
	let q2 = n2 / d2;
	if q1 != q2 {
		return q1 < q2;
	}
	let r1 = n1 % d1;
	let r2 = n2 % d2;
	if r2.is_zero() {
		return false;
	}
	if r1.is_zero() {
		return true;
	}
	compare_rationals(d2, r2, d1, r1)
"""), (TH, """	mut n1: T,
	mut d1: T,
	mut n2: T,
	mut d2: T,
""", "\tn1: T,\n\td1: T,\n\tn2: T,\n\td2: T,\n"))
R("compare-flip", (TH, """		if q1 < q2 {
			return true;
		}
		if q2 < q1 {
			return false;
		}
""", """		if q1 > q2 {
			return false;
		}
		if q2 > q1 {
			return true;
		}
"""))
R("compare-helper", (TH, """		if r2.is_zero() {
			return false;
		}
		if r1.is_zero() {
			return true;
		}
		n1 = d2;
		n2 = d1;
		d1 = r2;
		d2 = r1;
""", """		match (r1.is_zero(), r2.is_zero()) {
			(_, true) => return false,
			(true, false) => return true,
			(false, false) => {
				n1 = d2;
				n2 = d1_of(d1, &mut d2, r1);
				d1 = r2;
			},
		}
"""), (TH, "fn compare_rationals<", """fn d1_of<T>(old: T, d2: &mut T, r1: T) -> T {
	*d2 = r1;
	old
}

fn compare_rationals<"""))
