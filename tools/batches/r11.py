exec(open("tools/batches/r7.py").read().split("# weights")[0])
# weight tables rewritten
DW = "pallets/democracy/src/weights.rs"
EW = "pallets/elections-phragmen/src/weights.rs"
A = "		Weight::from_parts(48_936_654, 19800)\n			// Standard Error: 8_879\n			.saturating_add(Weight::from_parts(4_708_141, 0).saturating_mul(r.into()))\n			.saturating_add(T::DbWeight::get().reads(5_u64))\n			.saturating_add(T::DbWeight::get().reads((1_u64).saturating_mul(r.into())))\n			.saturating_add(T::DbWeight::get().writes(4_u64))\n			.saturating_add(T::DbWeight::get().writes((1_u64).saturating_mul(r.into())))\n			.saturating_add(Weight::from_parts(0, 2676).saturating_mul(r.into()))\n"
R("w11-lets", (DW, A, "		let n: u64 = r.into();\n		let db = T::DbWeight::get();\n		let base = Weight::from_parts(48_936_654, 19800);\n		let each = Weight::from_parts(4_708_141, 2676);\n		base.saturating_add(each.saturating_mul(n)).saturating_add(db.reads_writes(5 + n, 4 + n))\n"))
R("w11-arith", (DW, A, "		let n = r as u64;\n		Weight::from_parts(48_936_654 + 4_708_141 * n, 19800 + 2676 * n) + T::DbWeight::get().reads(n.saturating_add(5)) + T::DbWeight::get().writes(n.saturating_add(4))\n"))
R("w11-helper", (DW, A, "		measured(r, 48_936_654, 4_708_141, 19800, 2676) + T::DbWeight::get().reads_writes(5 + u64::from(r), 4 + u64::from(r))\n"),
  (DW, "/// Weight functions needed for pallet_democracy.\n", "const fn nothing() -> Weight {\n	Weight::zero()\n}\n\nfn measured(n: u32, time: u64, time_each: u64, proof: u64, proof_each: u64) -> Weight {\n	let n = n as u64;\n	nothing().saturating_add(Weight::from_parts(time, proof)).saturating_add(Weight::from_parts(time_each, proof_each).saturating_mul(n))\n}\n\n/// Weight functions needed for pallet_democracy.\n"))
R("w11-const", (DW, A, "		const BASE: Weight = Weight::from_parts(48_936_654, 19800);\n		const EACH: Weight = Weight::from_parts(4_708_141, 2676);\n		let mut w = BASE;\n		w.saturating_accrue(EACH * r as u64);\n		w += T::DbWeight::get().reads(5) + T::DbWeight::get().reads(1) * r as u64;\n		w += T::DbWeight::get().writes(4) + T::DbWeight::get().writes(1) * r as u64;\n		w\n"))
