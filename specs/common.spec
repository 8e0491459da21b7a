crate polimec_common

# a credential: a token signed with the given key, not expired, naming the very account that signed the transaction
fn verify_token(token, key)
  let valid = AlgorithmExt::validator(Ed25519{}, VerifyingKey::from_slice(key).ok)
  given isok(VerifyingKey::from_slice(key))
  C45 returns Validator::validate(valid, token)
  C45 frame VerifyingKey::from_slice AlgorithmExt::validator unwrap_failed::* Validator::validate

fn ensure_origin(origin, token, key)
  C45 require isok(Self::try_origin(origin, token, key))
  C45 allows
  C45 returns Ok(Self::try_origin(origin, token, key).ok) when isok(Self::try_origin(origin, token, key))
  C45 frame Self::try_origin

fn try_origin in EnsureInvestor(origin, token, key)
  let who = RuntimeOrigin::into_signer(origin)
  let checked = Validator::validate(AlgorithmExt::validator(Ed25519{}, VerifyingKey::from_slice(key).ok), token)
  let claims = Token::claims(checked.ok)
  let now_ms = Moment::try_into(Now[])
  let until = DateTime::timestamp_millis(claims.expiration?)
  let good = some(who) & isok(checked) & isok(now_ms) & some(claims.expiration) & claims.custom.subject == who? & trunc(u64, until) >= now_ms.ok
  given isok(VerifyingKey::from_slice(key))
  C45 require some(who)
  C45 require isok(checked)
  C45 require isok(now_ms)
  C45 require some(claims.expiration)
  C45 require claims.custom.subject == who?
  C45 require trunc(u64, until) >= now_ms.ok
  C45 allows
  C45 returns Ok((who?, claims.custom.did, claims.custom.investor_type, claims.custom.ipfs_cid)) when good
  C45 frame RuntimeOrigin::into_signer VerifyingKey::from_slice AlgorithmExt::validator Validator::validate Token::claims Moment::try_into DateTime::timestamp_millis unwrap_failed::*

# ---- prices and migrations ------------------------------------------------------------------------
def ten(n) = u128::checked_pow(10, n)

fn get_decimals_aware_price(asset, usd, dec)
  let p = Self::get_price(asset)
  C46 returns if some(p) then Self::calculate_decimals_aware_price(p?, usd, dec) else None
  C46 frame Self::*

# price * 10^usd / 10^asset, nothing if a step does not fit
fn calculate_decimals_aware_price(p, usd, dec)
  let scaled = Price::checked_mul_int(p, ten(usd)?)
  C46 returns if some(ten(usd)) & some(scaled) & some(ten(dec)) then Price::checked_from_rational(scaled?, ten(dec)?) else None
  C46 frame u128::checked_pow Price::*

# the inverse: multiplied (divided) by 10^(difference of the decimals)
fn convert_back_to_normal_price(p, usd, dec)
  let by = ten(absdiff(dec, usd))
  let f = Price::checked_from_rational(by?, 1)
  C46 returns if some(by) & some(f) then (if usd > dec then cdiv(p, f?) else cmul(p, f?)) else None
  C46 frame u128::checked_pow Price::*

fn total_ct_amount(ms)
  C46 returns sum(0, ms.0: true, elem(ms.0).info.contribution_token_amount)

fn biggest_vesting_time(ms)
  C46 returns if len(ms.0) == 0 then 0 else pick(max, seq(ms.0: true, elem(ms.0).info.vesting_time))

fn origins(ms)
  C46 returns seq(ms.0: true, elem(ms.0).origin)

fn infos(ms)
  C46 returns seq(ms.0: true, elem(ms.0).info)

fn contains in Migrations(ms, m)
  C46 returns any(ms.0: m == elem(ms.0))

fn inner(ms)
  C46 returns ms.0
