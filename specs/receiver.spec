crate polimec_receiver

def sovereign() = AccountIdConversion::into_account_truncating(Sibling(cfg(PolimecParaId)))

fn execute_migrations(origin, migrations)
  let ms = Migrations::inner(migrations)
  let m = elem(ms)
  let o = m.origin
  let u = Location::unpack(o.user)
  let named = u.0 == 0 & len(u.1) == 1 & at(u.1, 0) is Junction::AccountId32
  let who = at(u.1, 0).AccountId32.id
  let amount = m.info.contribution_token_amount
  let done = bool(ExecutedMigrations[o.user, o.participation_type, o.id])
  let pays = Balances::transfer(sovereign(), who, amount, ExistenceRequirement::KeepAlive)
  let vests = Vesting::add_vesting_schedule(who, amount, MigrationInfoToPerBlockBalance::convert(m.info), cfg(GenesisMoment))
  C44 require isok(cumulus_pallet_xcm::ensure_sibling_para(origin))
  C44 require cumulus_pallet_xcm::ensure_sibling_para(origin).ok == cfg(PolimecParaId)
  C44 require !any(ms: !named)
  C44 require !any(ms: named & !done & !isok(pays))
  C44 require !any(ms: named & !done & isok(pays) & !isok(vests))
  C44 allows
  C44 call Balances::transfer(sovereign(), who, amount, ExistenceRequirement::KeepAlive) in ms when !done
  C44 call Vesting::add_vesting_schedule(who, amount, MigrationInfoToPerBlockBalance::convert(m.info), cfg(GenesisMoment)) in ms when !done
  C44 put ExecutedMigrations[o.user, o.participation_type, o.id] = true in ms when !done
  C44 event MigrationExecuted{migration: m} in ms when !done
  C44 event DuplicatedMigrationSkipped{migration: m} in ms when done
  C44 together Balances::transfer put:ExecutedMigrations
  C44 frame cumulus_pallet_xcm::ensure_sibling_para AccountIdConversion::* Migrations::inner Location::unpack MigrationInfoToPerBlockBalance::convert
