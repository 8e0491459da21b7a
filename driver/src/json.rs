use std::fmt::Write;

#[derive(Clone)]
pub enum J {
	Null,
	B(bool),
	N(i128),
	U(u128),
	S(String),
	A(Vec<J>),
	O(Vec<(&'static str, J)>),
}

pub fn s<T: ToString>(x: T) -> J {
	J::S(x.to_string())
}
pub fn n(x: usize) -> J {
	J::N(x as i128)
}

impl J {
	pub fn write(&self, o: &mut String) {
		match self {
			J::Null => o.push_str("null"),
			J::B(b) => o.push_str(if *b { "true" } else { "false" }),
			J::N(v) => {
				let _ = write!(o, "{v}");
			},
			J::U(v) => {
				let _ = write!(o, "{v}");
			},
			J::S(v) => {
				o.push('"');
				for c in v.chars() {
					match c {
						'"' => o.push_str("\\\""),
						'\\' => o.push_str("\\\\"),
						'\n' => o.push_str("\\n"),
						c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
							let _ = write!(o, "\\u{:04x}", c as u32);
						},
						c => o.push(c),
					}
				}
				o.push('"');
			},
			J::A(v) => {
				o.push('[');
				for (i, x) in v.iter().enumerate() {
					if i > 0 {
						o.push(',');
					}
					x.write(o);
				}
				o.push(']');
			},
			J::O(v) => {
				o.push('{');
				for (i, (k, x)) in v.iter().enumerate() {
					if i > 0 {
						o.push(',');
					}
					let _ = write!(o, "\"{k}\":");
					x.write(o);
				}
				o.push('}');
			},
		}
	}
}
