crate pallet_proxy_bonding

# each derivation path has its own sub-account of the pallet's root id (path 0 is not the root itself)
def sub(p) = Id::into_sub_account_truncating(cfg(RootId), satadd(p, 1))
def plmc() = PriceProvider::get_decimals_aware_price(cfg(BondingTokenId), cfg(UsdDecimals), cfg(BondingTokenDecimals))
def asset(f) = PriceProvider::get_decimals_aware_price(f, cfg(UsdDecimals), FeeToken::decimals(f))
def priced(f) = some(plmc()) & some(asset(f)) & some(Price::reciprocal(asset(f)?))
# the fee: FeePercentage of the bond's USD value, in the fee asset
def fee(x, f) = Price::saturating_mul_int(Price::reciprocal(asset(f)?)?, cfg(FeePercentage) * Price::saturating_mul_int(plmc()?, x))
def pay(f, a, b, x, p) = FeeToken::transfer(f, a, b, x, p)
def bond(r, p, x) = BondingToken::transfer_and_hold(r, cfg(Treasury), sub(p), x, Precision::Exact, Preservation::Preserve, Fortitude::Polite)
def seed(p) = BondingToken::transfer(cfg(Treasury), sub(p), BondingToken::minimum_balance(), Preservation::Preserve)
def poor(p) = BondingToken::balance(sub(p)) < BondingToken::minimum_balance()

fn get_bonding_account(path)
  C40 returns sub(path)

fn calculate_fee(x, f)
  C40 require priced(f)
  C40 allows
  C40 returns Ok(fee(x, f)) when priced(f)
  C40 fails Error::PriceNotAvailable when !priced(f)
  C40 frame PriceProvider::* FeeToken::decimals Price::*

fn bond_on_behalf_of(path, who, x, f, reason)
  C40 require priced(f)
  C40 require isok(pay(f, who, sub(path), fee(x, f), Preservation::Preserve))
  C40 require !poor(path) | isok(seed(path))
  C40 require isok(bond(reason, path, x))
  C40 allows
  C40 fails Error::PriceNotAvailable when !priced(f)
  C40 call pay(f, who, sub(path), fee(x, f), Preservation::Preserve)
  C40 call seed(path) when poor(path)
  C40 call bond(reason, path, x)
  C40 frame PriceProvider::* FeeToken::decimals Price::* Id::into_sub_account_truncating BondingToken::balance BondingToken::minimum_balance

fn refund_fee(path, who, x, f)
  C41 require priced(f)
  C41 require isok(pay(f, sub(path), who, fee(x, f), Preservation::Expendable))
  C41 allows
  C41 call pay(f, sub(path), who, fee(x, f), Preservation::Expendable)
  C41 frame PriceProvider::* FeeToken::decimals Price::* Id::into_sub_account_truncating

fn set_release_type(path, reason, t)
  C41 final Releases[path, reason] = Some(t)
  C41 frame

fn transfer_bonds_back_to_treasury(origin, path, reason)
  let r = Releases[path, reason]?
  let freed = BondingToken::release_all(reason, sub(path), Precision::BestEffort)
  let back = BondingToken::transfer(sub(path), cfg(Treasury), freed.ok, Preservation::Expendable)
  C41 require issigned(origin)
  C41 require some(Releases[path, reason])
  C41 require r is Refunded | r.Locked.0 <= now
  C41 require isok(freed)
  C41 require isok(back)
  C41 allows
  C41 fails Error::ReleaseTypeNotSet when issigned(origin) & !some(Releases[path, reason])
  C41 fails Error::TooEarlyToUnlock when issigned(origin) & some(Releases[path, reason]) & r is Locked & r.Locked.0 > now
  C41 call BondingToken::release_all(reason, sub(path), Precision::BestEffort)
  C41 call BondingToken::transfer(sub(path), cfg(Treasury), freed.ok, Preservation::Expendable)
  C41 event BondsTransferredBackToTreasury{bond_amount: freed.ok}
  C41 order BondingToken::release_all before BondingToken::transfer
  C41 frame Id::into_sub_account_truncating

fn transfer_fees_to_recipient(origin, path, reason, f)
  let r = Releases[path, reason]?
  let all = FeeToken::balance(f, sub(path))
  C41 require issigned(origin)
  C41 require some(Releases[path, reason])
  C41 require !(r is Refunded)
  C41 require isok(pay(f, sub(path), cfg(FeeRecipient), all, Preservation::Expendable))
  C41 allows
  C41 fails Error::ReleaseTypeNotSet when issigned(origin) & !some(Releases[path, reason])
  C41 fails Error::FeeToRecipientDisallowed when issigned(origin) & some(Releases[path, reason]) & r is Refunded
  C41 call pay(f, sub(path), cfg(FeeRecipient), all, Preservation::Expendable)
  C41 event FeesTransferredToFeeRecipient{fee_asset: f, fee_amount: all}
  C41 frame Id::into_sub_account_truncating FeeToken::balance
