exec(open("tools/batches/r7.py").read().split("# weights")[0])
# constants and tables
IMPL = "impl<T: Config> Pallet<T> {\n	// exposed immutables.\n"
EIMPL = "impl<T: Config> Pallet<T> {\n	/// Attempts to remove a member `who`."
R("k12-precision", (D, "T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;", "T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, RETURN)?;"),
  (D, "pub(crate) const DEMOCRACY_ID", "const RETURN: Precision = Precision::BestEffort;\n\npub(crate) const DEMOCRACY_ID"))
R("k12-precision-assoc", (D, "T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;", "T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Self::RETURN)?;"),
  (D, IMPL, "impl<T: Config> Pallet<T> {\n	const RETURN: Precision = Precision::BestEffort;\n	// exposed immutables.\n"))
R("k12-priority-assoc", (D, "				63,\n", "				Self::ENACTMENT_PRIORITY,\n"), (D, IMPL, "impl<T: Config> Pallet<T> {\n	const ENACTMENT_PRIORITY: u8 = 63;\n	// exposed immutables.\n"))
R("k12-priority-const", (D, "				63,\n", "				ENACTMENT_PRIORITY,\n"), (D, "pub(crate) const DEMOCRACY_ID", "const ENACTMENT_PRIORITY: u8 = LOWEST / 4;\nconst LOWEST: u8 = u8::MAX;\n\npub(crate) const DEMOCRACY_ID"))
R("k12-periods-pow", (C, "			Conviction::None => 0,\n			Conviction::Locked1x => 1,\n			Conviction::Locked2x => 2,\n			Conviction::Locked3x => 4,\n			Conviction::Locked4x => 8,\n			Conviction::Locked5x => 16,\n			Conviction::Locked6x => 32,\n", "			Conviction::None => 0,\n			Conviction::Locked1x => 1 << 0,\n			Conviction::Locked2x => 1 << 1,\n			Conviction::Locked3x => 1 << 2,\n			Conviction::Locked4x => 1 << 3,\n			Conviction::Locked5x => 1 << 4,\n			Conviction::Locked6x => 1 << 5,\n"))
R("k12-bit", (V, "if self.aye { 0b1000_0000 } else { 0 }", "if self.aye { Self::AYE } else { 0 }"), (V, "impl Encode for Vote {\n", "impl Vote {\n	const AYE: u8 = 1 << 7;\n}\n\nimpl Encode for Vote {\n"))
R("k12-bit-shift", (V, "if self.aye { 0b1000_0000 } else { 0 }", "(self.aye as u8) << 7"))
R("k12-e-exact", (E, "						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)\n							.map_err(|_| Error::<T>::UnableToReleaseBond)?;\n						Self::deposit_event(Event::Renounced { candidate: who });\n						Ok(())\n					})?;\n				},\n				Renouncing::Candidate(count) => {", "						T::Currency::release(&Self::reason(), &who, deposit, Self::WHOLE)\n							.map_err(|_| Error::<T>::UnableToReleaseBond)?;\n						Self::deposit_event(Event::Renounced { candidate: who });\n						Ok(())\n					})?;\n				},\n				Renouncing::Candidate(count) => {"),
  (E, EIMPL, "impl<T: Config> Pallet<T> {\n	const WHOLE: Precision = Precision::Exact;\n	fn reason() -> T::RuntimeHoldReason {\n		HoldReason::Candidacy.into()\n	}\n\n	/// Attempts to remove a member `who`."))
R("k12-votes-saturating", (C, "			x => capital.checked_mul(&u8::from(x).into()).unwrap_or_else(B::max_value),\n", "			x => match capital.checked_mul(&B::from(x.into())) {\n				Some(votes) => votes,\n				None => B::max_value(),\n			},\n"))
R("k12-votes-tenth", (C, "			Conviction::None => capital.checked_div(&10u8.into()).unwrap_or_else(Zero::zero),\n", "			Conviction::None => {\n				const TENTH: u8 = 10;\n				capital.checked_div(&TENTH.into()).unwrap_or(B::zero())\n			},\n"))
