/// one day of six-second blocks
pub const MINUTES: u32 = 10;
pub const HOURS: u32 = MINUTES * 60;
pub const DAYS: u32 = HOURS * 24;
