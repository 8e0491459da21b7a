# the state check of the elections pallet, as compiled with the try-runtime feature
crate pallet_elections_phragmen_try

def seated(x) = any(Members[]: elem(Members[]).who == x)
def waiting(x) = any(RunnersUp[]: elem(RunnersUp[]).who == x)

fn try_state in Hooks(n)
  C62 require Members[] == sorted(Members[], lam(x: x.who))
  C62 require RunnersUp[] == sorted(RunnersUp[], lam(x: x.stake))
  C62 require Candidates[] == sorted(Candidates[], lam(x: x.0))
  C62 require !any(Candidates[]: waiting(elem(Candidates[]).0))
  C62 require !any(Candidates[]: seated(elem(Candidates[]).0))
  C62 require !any(RunnersUp[]: seated(elem(RunnersUp[]).who))
  C62 require !any(Members[]: elem(Members[]).stake == 0)
  C62 require !any(RunnersUp[]: elem(RunnersUp[]).stake == 0)
  C62 allows
  C62 frame
