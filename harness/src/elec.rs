//! Elections: one operation from an arbitrary consistent state of seats and voters.
use crate::{mock::*, util::*};
use alloc::{vec, vec::Vec};
use frame_support::traits::{
	fungible::{Inspect, InspectFreeze, InspectHold, MutateFreeze, MutateHold},
	tokens::{Fortitude, Preservation},
	Hooks,
};
use pallet_elections_phragmen::{
	Candidates, ElectionRounds, FreezeReason, HoldReason, Members, Renouncing, RunnersUp, SeatHolder, Voter, Voting,
};
use sp_npos_elections::{seq_phragmen, ElectionResult};
use sp_runtime::Perbill;
use symrt::*;

type E = Elections;
/// deposits stay below this and balances below 2^49, so that a vote weighs what it holds
const M: u128 = 1 << 40;
/// everybody who appears: members 20 50, runners-up 55 60 30 (30 is the best), candidates 10 35 70, outsiders 5 45 95
const POOL: [u64; 11] = [5, 10, 20, 30, 35, 45, 50, 55, 60, 70, 95];
const MEM: [u64; 2] = [20, 50];
const RUN: [u64; 3] = [55, 60, 30];
const CAN: [u64; 5] = [10, 35, 70, 80, 97];
const VOTERS: [u64; 5] = [90, 91, 92, 93, 94];

type Seat = (u64, u128, u128);
fn held(who: u64) -> u128 {
	Balances::balance_on_hold(&RuntimeHoldReason::Elections(HoldReason::Candidacy), &who)
}
fn total(who: u64) -> u128 {
	<Balances as Inspect<u64>>::total_balance(&who)
}
fn frozen(who: u64) -> u128 {
	Balances::balance_frozen(&RuntimeFreezeReason::Elections(FreezeReason::Voting), &who)
}
fn freeze(who: u64, v: u128) {
	let _ = Balances::set_freeze(&RuntimeFreezeReason::Elections(FreezeReason::Voting), &who, v);
}
fn tuple(l: Vec<SeatHolder<u64, u128>>) -> Vec<Seat> {
	l.into_iter().map(|x| (x.who, x.stake, x.deposit)).collect()
}
fn holders(l: &[Seat]) -> Vec<SeatHolder<u64, u128>> {
	l.iter().map(|x| SeatHolder { who: x.0, stake: x.1, deposit: x.2 }).collect()
}
fn sorted(l: &[u64]) -> bool {
	l.windows(2).all(|w| w[0] < w[1])
}

/// the specification's view of the pallet
#[derive(Clone, PartialEq)]
struct St {
	m: Vec<Seat>,
	r: Vec<Seat>,
	c: Vec<(u64, u128)>,
	/// total balances of the pool
	t: Vec<u128>,
	prime: Option<u64>,
	rounds: u32,
	slashed: u128,
}
impl St {
	fn ids(&self) -> Vec<u64> {
		self.m.iter().map(|x| x.0).collect()
	}
	fn deposit(&self, who: u64) -> u128 {
		for x in self.m.iter().chain(self.r.iter()) {
			if x.0 == who {
				return x.2;
			}
		}
		self.c.iter().find(|x| x.0 == who).map_or(0, |x| x.1)
	}
	fn is_member(&self, who: u64) -> bool {
		self.m.iter().any(|x| x.0 == who)
	}
	fn is_runner(&self, who: u64) -> bool {
		self.r.iter().any(|x| x.0 == who)
	}
	fn is_cand(&self, who: u64) -> bool {
		self.c.iter().any(|x| x.0 == who)
	}
	fn total(&mut self, who: u64) -> &mut u128 {
		&mut self.t[POOL.iter().position(|x| *x == who).unwrap()]
	}
	fn now() -> St {
		St {
			m: tuple(Members::<Test>::get()),
			r: tuple(RunnersUp::<Test>::get()),
			c: Candidates::<Test>::get(),
			t: POOL.iter().map(|x| total(*x)).collect(),
			prime: prime_told(),
			rounds: ElectionRounds::<Test>::get(),
			slashed: slashed(),
		}
	}
	/// a member leaves; the best runner-up takes the seat
	fn leave(&mut self, who: u64, slash: bool) {
		let k = self.m.iter().position(|x| x.0 == who).unwrap();
		let x = self.m.remove(k);
		if slash {
			*self.total(who) -= x.2;
			self.slashed += x.2;
		}
		if let Some(b) = self.r.pop() {
			let p = self.m.iter().position(|x| x.0 > b.0).unwrap_or(self.m.len());
			self.m.insert(p, b);
		}
		if self.prime == Some(who) {
			self.prime = None;
		}
	}
	/// an election with these voters
	fn elect(&mut self, voters: &[(u64, u128, Vec<u64>)]) {
		let mut all: Vec<(u64, u128)> = self.c.clone();
		all.extend(self.m.iter().chain(self.r.iter()).map(|x| (x.0, x.2)));
		if all.is_empty() {
			return;
		}
		let (seats, ups) = (Desired::value() as usize, DesiredUp::value() as usize);
		let v: Vec<_> = voters.iter().map(|x| (x.0, x.1 as u64, x.2.clone())).collect();
		let ElectionResult { winners, .. } =
			match seq_phragmen::<u64, Perbill>(seats + ups, all.iter().map(|x| x.0).collect(), v, None) {
				Ok(r) => r,
				Err(_) => panic!("phragmen"),
			};
		let dep = |w: u64| all.iter().find(|x| x.0 == w).unwrap().1;
		let w: Vec<Seat> = winners.into_iter().filter(|x| x.1 > 0).map(|x| (x.0, x.1, dep(x.0))).collect();
		let n = seats.min(w.len());
		let mut m = w[..n].to_vec();
		m.sort_by_key(|x| x.0);
		let mut r = w[n..].to_vec();
		r.reverse();
		for (c, d) in all.iter() {
			if !w.iter().any(|x| x.0 == *c) {
				*self.total(*c) -= *d;
				self.slashed += *d;
			}
		}
		// Borda: the first of a voter's votes weighs MaxVotesPerVoter, the next one less; ties go to the highest account
		let mut best: Option<(u64, u128)> = None;
		for x in m.iter() {
			let mut s = 0;
			for (_, stake, votes) in voters {
				for (k, t) in votes.iter().enumerate() {
					if *t == x.0 {
						s += stake * (3 - k as u128);
					}
				}
			}
			if best.map_or(true, |b| s >= b.1) {
				best = Some((x.0, s));
			}
		}
		(self.m, self.r, self.c, self.prime) = (m, r, vec![], best.map(|x| x.0));
		self.rounds += 1;
	}
}

fn deposit_for(who: u64) -> u128 {
	let d = any("deposit", (who != 20) as u128, M);
	fund(who, any("funds", 1 << 41, 1 << 42));
	let _ = Balances::hold(&RuntimeHoldReason::Elections(HoldReason::Candidacy), &who, d);
	d
}
/// any state with these seats taken
fn seats(nm: usize, nr: usize, nc: usize, primes: u32) -> St {
	let seat = |who: &u64| (*who, any("stake", 1, M), deposit_for(*who));
	let m: Vec<Seat> = MEM[..nm].iter().map(seat).collect();
	let r: Vec<Seat> = RUN[3 - nr..].iter().map(seat).collect();
	let c: Vec<(u64, u128)> = CAN[..nc].iter().map(|x| (*x, deposit_for(*x))).collect();
	Members::<Test>::put(holders(&m));
	RunnersUp::<Test>::put(holders(&r));
	Candidates::<Test>::put(&c);
	ElectionRounds::<Test>::put(7);
	let ids: Vec<u64> = m.iter().map(|x| x.0).collect();
	frame_support::storage::unhashed::put(CHG_KEY, &ids);
	let p = choice("prime", primes.min(nm as u32 + 1)) as usize;
	frame_support::storage::unhashed::put(PRIME_KEY, &if p == 0 { None } else { Some(MEM[p - 1]) });
	St::now()
}
fn any_seats() -> St {
	let (nm, nr, nc) = (choice("members", 3), choice("runners-up", 3), choice("candidates", 3));
	seats(nm as usize, nr as usize, nc as usize, 1)
}
/// the state is exactly what the specification expects
fn verify(e: &St) {
	let n = St::now();
	check(n.m == e.m, "E01+E05: members are as specified");
	check(n.r == e.r, "E01+E05: runners-up are as specified");
	check(n.c == e.c, "E01+E06: candidates are as specified");
	check(n.rounds == e.rounds, "E01: rounds are counted");
	check(members_told() == n.ids(), "E01+E05: the membership handler is told every change");
	check(n.t == e.t, "E02: only slashing changes what an account has");
	check(n.slashed == e.slashed, "E02: exactly the lost deposits go to the slash handler");
	for w in POOL {
		check(held(w) == n.deposit(w), "E02+E06: what is on hold is exactly the recorded candidacy deposit");
	}
	check(sorted(&n.ids()), "E01+E05: members are sorted by account without duplicates");
	check(sorted(&n.c.iter().map(|x| x.0).collect::<Vec<_>>()), "E06: candidates are sorted by account without duplicates");
	for (k, x) in n.r.iter().enumerate() {
		check(!n.is_member(x.0) && !n.is_cand(x.0), "E01+E05+E06: a runner-up has no other role");
		check(!n.r[..k].iter().any(|y| y.0 == x.0), "E06: a runner-up appears once");
	}
	check(!n.m.iter().any(|x| n.is_cand(x.0)), "E01+E05+E06: a member is not a candidate");
}
fn put_voter(who: u64, votes: &[u64], stake: u128, lockup_till: u64) {
	fund(who, 1 << 48);
	freeze(who, stake);
	Voting::<Test>::insert(who, Voter { votes: votes.to_vec(), stake, lockup_till });
}
fn voters_now() -> Vec<(u64, u128, Vec<u64>)> {
	Voting::<Test>::iter().map(|(w, v)| (w, v.stake, v.votes)).collect()
}

/// Elections with any seats and candidates. The voters' stakes
/// are picked from a few combinations (the load arithmetic of Phragmén is beyond the solver).
fn election(mut s: St, pats: &[&[u64]], n: usize) {
	const STAKES: [[u128; 3]; 4] = [[3, 5, 2], [4, 4, 4], [0, 9, 6], [200, 1, 60]];
	let d = [(1, 1), (2, 0), (2, 1)][choice("desired", 3) as usize];
	Desired::set(d.0);
	DesiredUp::set(d.1);
	let st = choice("stakes", 4) as usize;
	for k in 0..n {
		let p = pats[choice("votes", pats.len() as u32) as usize];
		if !p.is_empty() {
			put_voter(VOTERS[k], p, STAKES[st][k], 9);
		}
	}
	let voters = voters_now();
	Term::set(5);
	<E as Hooks<u64>>::on_initialize(5);
	s.elect(&voters);
	if s.rounds == 8 {
		reach(if s.m.is_empty() { "nobody elected" } else { "elected" });
	} else {
		reach("nobody stands");
	}
	verify(&s);
	check(prime_told() == s.prime, "E01: the prime has the highest Borda count");
	for x in s.m.iter().chain(s.r.iter()) {
		check(x.1 > 0, "E01: nobody without backing takes a seat");
	}
	check(s.m.len() <= Desired::value() as usize && s.r.len() <= DesiredUp::value() as usize, "E01: no more seats than desired");
	check(voters_now() == voters, "E01: an election keeps the votes");
	observe("members", s.m.len() as u128);
	observe("prime", s.prime.unwrap_or(0) as u128);
}
fn some_seats() -> St {
	let s = [(0, 0, 2), (2, 2, 0), (1, 1, 1), (0, 0, 0), (2, 1, 2)][choice("seats", 5) as usize];
	seats(s.0, s.1, s.2, 1)
}
pub fn election_two() {
	election(some_seats(), &[&[10], &[35, 20], &[50, 30, 10], &[5, 20, 50]], 2)
}
pub fn election_deep() {
	election(any_seats(), &[&[], &[10], &[20], &[50, 10], &[60, 20, 35], &[5, 30], &[35, 50], &[30, 30, 20]], 3)
}
/// The election takes place exactly in the last block of a term, with at most MaxVoters voters.
pub fn when() {
	let mut s = seats(1, 1, 1, 2);
	let n = 3 + choice("voters", 3) as usize;
	for (k, v) in VOTERS[..n].iter().enumerate() {
		put_voter(*v, &[[10u64, 60, 20, 10, 10][k]], [7u128, 9, 5, 3, 11][k], 9);
	}
	let voters = voters_now();
	let term = any("term", 0, 1 << 12) as u64;
	let now = any("now", 1, 1 << 12) as u64;
	Term::set(term);
	set_now(now);
	<E as Hooks<u64>>::on_initialize(now);
	if term > 0 && now % term == 0 && n <= 4 {
		s.elect(&voters);
		reach("election");
	} else {
		reach(if n > 4 { "too many voters" } else { "no election" });
	}
	verify(&s);
	check(prime_told() == s.prime, "E01: the prime has the highest Borda count");
}
/// Standing as a candidate, with fewer candidates than the limit or the limit reached.
fn submit_with(nc: usize) {
	let mut s = seats(2, 2, nc, 1);
	let who = POOL[choice("who", 11) as usize];
	let free = any("free", 1, 1 << 43);
	if total(who) == 0 {
		fund(who, free);
		*s.total(who) = free;
	}
	let spare = *s.total(who) - s.deposit(who) - 1;
	let bond = any("bond", 0, 1 << 43);
	Bond::set(bond);
	let witness = any("witness", 0, u32::MAX as u128) as u32;
	let origin = choice("origin", 3);
	let o = match origin {
		0 => RuntimeOrigin::signed(who),
		1 => RuntimeOrigin::root(),
		_ => RuntimeOrigin::none(),
	};
	let r = tx(|| E::submit_candidacy(o, witness));
	let has_role = s.is_member(who) || s.is_runner(who) || s.is_cand(who);
	let ok = origin == 0 && witness as usize >= nc && nc < 4 && !has_role && (bond == 0 || bond <= spare);
	check(r.is_ok() == ok, "E06: candidacy is accepted exactly when the rules allow it");
	if ok {
		let p = s.c.iter().position(|x| x.0 > who).unwrap_or(s.c.len());
		s.c.insert(p, (who, bond));
		reach("stands");
	} else {
		reach("refused");
	}
	verify(&s);
}
pub fn submit() {
	submit_with(choice("candidates", 4) as usize)
}
/// With MaxCandidates candidates nobody else is accepted.
pub fn submit_full() {
	let s = seats(1, 1, 4, 1);
	let w = any("witness", 4, u32::MAX as u128) as u32;
	fund(5, 1000);
	check(tx(|| E::submit_candidacy(RuntimeOrigin::signed(5), w)).is_err(), "E06: no candidate is accepted when the limit is reached");
	check(Candidates::<Test>::get() == s.c, "E06: the candidates stay as they are");
	reach("full");
}
/// With more than that never.
pub fn submit_over() {
	let s = seats(1, 1, 5, 1);
	let w = any("witness", 0, u32::MAX as u128) as u32;
	fund(5, 1000);
	check(tx(|| E::submit_candidacy(RuntimeOrigin::signed(5), w)).is_err(), "E06: no candidate is accepted beyond the limit");
	check(Candidates::<Test>::get() == s.c, "E06: the candidates stay as they are");
	reach("over");
}
pub fn renounce() {
	let (nm, nr, nc) = (choice("members", 3), choice("runners-up", 4), [0, 3][choice("candidates", 2) as usize]);
	let mut s = seats(nm as usize, nr as usize, nc as usize, 3);
	let who = [10u64, 20, 30, 35, 50, 55, 60, 70, 95][choice("who", 9) as usize];
	let witness = any("witness", 0, u32::MAX as u128) as u32;
	let (what, ok) = match choice("role", 3) {
		0 => (Renouncing::Member, s.is_member(who)),
		1 => (Renouncing::RunnerUp, s.is_runner(who)),
		_ => (Renouncing::Candidate(witness), s.is_cand(who) && witness >= nc),
	};
	let r = tx(|| E::renounce_candidacy(RuntimeOrigin::signed(who), what.clone()));
	check(r.is_ok() == ok, "E05: renouncing works exactly for the role one has");
	if ok {
		match what {
			Renouncing::Member => s.leave(who, false),
			Renouncing::RunnerUp => s.r.retain(|x| x.0 != who),
			Renouncing::Candidate(_) => s.c.retain(|x| x.0 != who),
		}
		check(held(who) == 0, "E02: renouncing returns the deposit in full");
		reach("renounced");
	} else {
		reach("refused");
	}
	verify(&s);
	check(prime_told() == s.prime, "E01+E05: the prime stays unless it leaves");
}
pub fn remove() {
	let (nm, nr, nc) = (choice("members", 3), choice("runners-up", 3), choice("candidates", 2));
	let mut s = seats(nm as usize, nr as usize, nc as usize, 3);
	let who = [20u64, 50, 60, 10, 5][choice("who", 5) as usize];
	Desired::set(2);
	DesiredUp::set(1);
	let rerun = nm == 2 && nr == 1 && nc == 1 && choice("rerun", 2) == 1;
	let slash = choice("slash", 2) == 1;
	for (k, p) in [[20u64, 60], [10, 50]].iter().enumerate() {
		if rerun {
			put_voter(VOTERS[k], p, [3, 7][k], 9);
		}
	}
	let voters = voters_now();
	let root = slash || choice("origin", 2) == 0;
	let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who) };
	let ok = root && s.is_member(who);
	let r = tx(|| E::remove_member(o, who, slash, rerun));
	check(r.is_ok() == ok, "E05: only root removes, and only members");
	if ok {
		s.leave(who, slash);
		reach(if slash { "slashed" } else { "returned" });
		if rerun {
			s.elect(&voters);
		}
	} else {
		reach("refused");
	}
	verify(&s);
	check(prime_told() == s.prime, "E01+E05: the prime stays unless it leaves");
}
/// One vote of an account that may have voted before.
pub fn vote() {
	let (nm, nr, nc) = (choice("members", 2), choice("runners-up", 2), choice("candidates", 2));
	let s = seats(nm as usize, nr as usize, nc as usize, 1);
	let ed = any("ed", 1, 1000);
	Ed::set(ed);
	let t = any("balance", 1000, M);
	fund(90, t);
	let now = any("now", 0, 1 << 40) as u64;
	set_now(now);
	let period = any("period", 0, 1 << 40) as u64;
	VotingLock::set(period);
	let (mut stake, mut till) = (0, 0);
	if choice("voted before", 2) == 1 {
		// possibly more than what is left, after a slash
		stake = any("old stake", 0, M);
		till = any("old lock", 0, 1 << 41) as u64;
		freeze(90, stake);
		Voting::<Test>::insert(90, Voter { votes: vec![45], stake, lockup_till: till });
	}
	put_voter(91, &[35], 77, 3);
	let value = any("value", 0, 1 << 41);
	let votes = [20u64, 60, 10, 5][..choice("number", 5) as usize].to_vec();
	let before = Voting::<Test>::get(90);
	let r = tx(|| E::vote(RuntimeOrigin::signed(90), votes.clone(), value));
	let n = votes.len() as u32;
	let locked = now < till;
	let ok = n >= 1 && n <= 3 && n <= nm + nr + nc && if locked { value >= stake } else { value > ed };
	check(r.is_ok() == ok, "E03: a vote is accepted exactly when the rules allow it");
	let v = Voting::<Test>::get(90);
	if ok {
		let exp = if value < t { value } else { t };
		check(v.votes == votes, "E03: the vote is recorded as cast");
		check(v.stake == exp, "E03: the stake is the offered value, at most the total balance");
		check(frozen(90) == exp, "E03: the stake is frozen");
		check(v.lockup_till == now + period, "E03: the stake stays locked for the voting lock period");
		let left = Balances::reducible_balance(&90, Preservation::Expendable, Fortitude::Polite);
		check(left <= t - exp, "E03: the stake cannot be spent");
		reach(if locked { "changed" } else { "voted" });
	} else {
		check(v == before && frozen(90) == stake, "E03: a refused vote changes nothing");
		reach("refused");
	}
	let o = Voting::<Test>::get(91);
	check(o.votes == [35] && o.stake == 77 && o.lockup_till == 3 && frozen(91) == 77, "E03: a vote changes nobody else's");
	verify(&s);
}
/// Leaving as a voter.
pub fn leave() {
	let s = seats(1, 0, 1, 1);
	let now = any("now", 0, 1 << 40) as u64;
	set_now(now);
	let t = any("balance", 1000, M);
	fund(90, t);
	let (stake, till) = (any("stake", 0, M), any("lock", 0, 1 << 40) as u64);
	assume(stake <= t);
	let dem = any("democracy freeze", 0, M);
	let reason = RuntimeFreezeReason::Democracy(pallet_democracy::FreezeReason::Vote);
	let _ = Balances::set_freeze(&reason, &90, dem);
	let voter = choice("voter", 2) == 1;
	if voter {
		freeze(90, stake);
		Voting::<Test>::insert(90, Voter { votes: vec![45, 20], stake, lockup_till: till });
	}
	put_voter(91, &[35], 77, 0);
	let r = tx(|| E::remove_voter(RuntimeOrigin::signed(90)));
	let ok = voter && now >= till;
	check(r.is_ok() == ok, "E04: a voter can leave exactly when its lock is over");
	if ok {
		check(!Voting::<Test>::contains_key(90) && frozen(90) == 0, "E04: leaving frees the stake");
		reach("left");
	} else {
		check(Voting::<Test>::contains_key(90) == voter, "E04: a refused removal keeps the vote");
		check(frozen(90) == if voter { stake } else { 0 }, "E04: a refused removal keeps the stake locked");
		reach("refused");
	}
	check(Balances::balance_frozen(&reason, &90) == dem, "E04: other freezes stay");
	check(frozen(91) == 77 && Voting::<Test>::contains_key(91), "E04: leaving changes nobody else's vote");
	verify(&s);
}
/// Cleaning up voters whose votes have become pointless.
pub fn defunct() {
	let (nm, nr, nc) = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)][choice("roles", 4) as usize];
	let s = seats(nm, nr, nc, 1);
	let pats: [&[u64]; 5] = [&[5, 45], &[5, 20], &[30], &[10, 95], &[95]];
	let alive = |p: &[u64]| p.iter().any(|x| s.is_member(*x) || s.is_runner(*x) || s.is_cand(*x));
	let mut is_def = vec![];
	for k in 0..3 {
		let p = pats[choice("votes", [2, 4, 5][k]) as usize];
		put_voter(VOTERS[k], p, any("stake", 1, M), 1 << 50);
		is_def.push(!alive(p));
	}
	let (nv, nd) = [(3, 3), (3, 1), (2, 3), (1, 1), (3, 2), (0, 3)][choice("limits", 6) as usize];
	let root = choice("origin", 2) == 0;
	let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(90) };
	// the first nv voters in storage order are looked at
	let looked: Vec<u64> = voters_now().iter().take(nv as usize).map(|x| x.0).collect();
	let r = tx(|| E::clean_defunct_voters(o, nv, nd));
	check(r.is_ok() == root, "E04: only root cleans up");
	let mut gone = 0;
	for k in 0..3 {
		let v = Voting::<Test>::contains_key(VOTERS[k]);
		if !v {
			gone += 1;
			check(root && is_def[k] && looked.contains(&VOTERS[k]), "E04: only defunct voters within the limit are cleaned up");
			check(frozen(VOTERS[k]) == 0, "E04: cleaning up frees the stake");
		} else {
			check(frozen(VOTERS[k]) == Voting::<Test>::get(VOTERS[k]).stake, "E04: those who stay keep their stake locked");
		}
	}
	check(gone <= nd && gone <= nv, "E04: no more are cleaned up than asked");
	if root {
		let due = (0..3).filter(|k| is_def[*k] && looked.contains(&VOTERS[*k])).count() as u32;
		check(gone == due.min(nd), "E04: all defunct voters within the limits are cleaned up");
	}
	reach(if gone > 0 { "cleaned" } else { "kept" });
	verify(&s);
}
