//! Migration of a project's tokens to its own parachain: channels, the readiness check, messages and their answers.
use crate::{base::*, mock::*};
use alloc::{vec, vec::Vec};
use pallet_funding::*;
use frame_support::traits::Get;
use parity_scale_codec::Encode;
use sp_runtime::traits::Convert;
use polimec_common::{credentials::InvestorType, migration_types::*};
use symrt::*;
use xcm::v4::prelude::{PalletInfo, *};

const HERE: u32 = 3344;
type Check = PalletMigrationReadinessCheck;
fn back() -> Location {
	Location::new(1, Parachain(HERE))
}
fn info(para: u32, to: ChannelStatus, from: ChannelStatus, c: Option<Check>) -> Option<MigrationType> {
	Some(MigrationType::Pallet(PalletMigrationInfo {
		parachain_id: para.into(),
		hrmp_channel_status: HRMPChannelStatus { project_to_polimec: to, polimec_to_project: from },
		migration_readiness_check: c,
	}))
}
fn outcome(n: u32) -> CheckOutcome {
	match n {
		0 => CheckOutcome::AwaitingResponse,
		1 => CheckOutcome::Failed,
		_ => CheckOutcome::Passed(None),
	}
}
fn channel(name: &'static str) -> ChannelStatus {
	pick(name, &[ChannelStatus::Closed, ChannelStatus::Open, ChannelStatus::AwaitingAcceptance])
}
const CHANNEL: [(ChannelStatus, ChannelStatus); 1] = [(ChannelStatus::Open, ChannelStatus::Open)];
fn status() -> Status {
	pick("state", &[
		ProjectStatus::CTMigrationStarted,
		ProjectStatus::SettlementFinished(FundingOutcome::Success),
		ProjectStatus::CTMigrationFinished,
	])
}
/// two projects; the other one migrates to another parachain
fn world(st: Status, t: Option<MigrationType>, para: u32) -> (Details, Details, u32) {
	let mut d = details(st, 1 << 50, any("left", 0, 1 << 60));
	d.migration_type = t;
	let mut e = details(ProjectStatus::CTMigrationStarted, 1 << 50, 0);
	let other = any("other para", 0, u32::MAX as u128) as u32;
	assume(other != para);
	let c = Check { holding_check: (1 << 40, CheckOutcome::AwaitingResponse), pallet_check: (1 << 41, CheckOutcome::AwaitingResponse) };
	e.migration_type = info(other, ChannelStatus::Closed, ChannelStatus::Closed, Some(c));
	let m = meta(1 << 70, price(10_000));
	put(P, &m, &d);
	put(Q, &m, &e);
	set_now(30);
	(d, e, other)
}
/// messages cannot be sent, perhaps
fn weather() {
	if flag("router down") {
		frame_support::storage::unhashed::put(b":router:down", &());
	}
}
fn down() -> bool {
	frame_support::storage::unhashed::exists(b":router:down")
}
fn quiet(d: &Details, e: &Details, queries: u64) -> bool {
	get(P) == *d && get(Q) == *e && Router::sent() == 0 && pallet_xcm::QueryCounter::<Test>::get() == queries
}

/// the relay chain tells that the parachain asks for a channel
pub fn open() {
	let para = any("para", 0, u32::MAX as u128) as u32;
	let sender = any("sender", 0, u32::MAX as u128) as u32;
	let (size, capacity) = (any("size", 0, u32::MAX as u128) as u32, any("capacity", 0, u32::MAX as u128) as u32);
	let t = match choice("type", 3) {
		0 => None,
		1 => Some(MigrationType::Offchain),
		_ => info(para, ChannelStatus::Closed, ChannelStatus::Closed, None),
	};
	let st = status();
	let pallet = matches!(t, Some(MigrationType::Pallet(_)));
	let (d, e, other) = world(st.clone(), t, para);
	assume(sender != other);
	weather();
	let r = tx(|| Funding::do_handle_channel_open_request(sender, size, capacity).map_err(|_| sp_runtime::DispatchError::CannotLookup));
	let due = pallet && st == ProjectStatus::CTMigrationStarted && sender == para;
	let fits = Sizes::get().contains(&size) && Capacities::get().contains(&capacity);
	check(r.is_ok() == (due && fits && !down()), "F11: a channel is accepted from the parachain of a migration, within limits");
	if r.is_ok() {
		let mut x = d.clone();
		x.migration_type = info(para, ChannelStatus::Open, ChannelStatus::AwaitingAcceptance, None);
		check(get(P) == x && get(Q) == e, "F11: accepting a channel changes its state only");
		let calls = [(vec![60u8, 1], sender).using(), (vec![60u8, 0], (sender, ReqCapacity::get(), ReqSize::get())).using()];
		let sent = match Router::message(0) {
			Some((to, Xcm(v))) => {
				let got: Vec<Vec<u8>> =
					v.iter().filter_map(|i| if let Transact { call, origin_kind: OriginKind::Native, .. } = i { Some(call.encoded.clone()) } else { None }).collect();
				to == Location::parent() && got == calls
			},
			None => false,
		};
		check(sent && Router::sent() == 1, "F11: the relay chain is asked to accept that channel and to open one back");
		reach("accepted");
	} else {
		check(quiet(&d, &e, 0), "F11: a refused channel changes nothing");
		reach("refused");
	}
}
trait Using {
	fn using(&self) -> Vec<u8>;
}
impl<T: Encode> Using for (Vec<u8>, T) {
	fn using(&self) -> Vec<u8> {
		let mut v = self.0.clone();
		v.extend(self.1.encode());
		v
	}
}
/// what a readiness check that starts now does
fn started(para: u32, n: u64, minted: u128) -> bool {
	let Some((to, Xcm(v))) = Router::message(0) else { return false };
	let at = |id: u64| match pallet_xcm::Queries::<Test>::get(id) {
		Some((l, RuntimeCall::Funding(pallet_funding::Call::pallet_migration_readiness_response { .. }), until)) => l == Location::new(1, Parachain(para)) && until > 30,
		_ => false,
	};
	let asks = |i: &Instruction<()>, id: u64| match i {
		ReportHolding { response_info: r, assets: Wild(All) } if id == n => r.query_id == id && r.destination == back(),
		QueryPallet { module_name, response_info: r } if id == n + 1 => &module_name[..] == b"polimec_receiver" && r.query_id == id && r.destination == back(),
		_ => false,
	};
	to == Location::new(1, Parachain(para)) &&
		Router::sent() == 1 &&
		v.len() == 5 &&
		matches!(v[0], UnpaidExecution { .. }) &&
		v[1] == WithdrawAsset(vec![Asset::from((Location::here(), minted))].into()) &&
		asks(&v[2], n) &&
		asks(&v[3], n + 1) &&
		v[4] == (DepositAsset { assets: Wild(All), beneficiary: back() }) &&
		pallet_xcm::QueryCounter::<Test>::get() == n + 2 &&
		at(n) &&
		at(n + 1)
}
fn checks(h: u64, p: u64) -> Option<Check> {
	match choice("check", 10) {
		9 => None,
		n => {
			let p_ = if n % 3 == 2 { CheckOutcome::Passed(Some(7)) } else { outcome(n % 3) };
			Some(Check { holding_check: (h, outcome(n / 3)), pallet_check: (p, p_) })
		},
	}
}
fn begun(n: u64) -> Option<Check> {
	Some(Check { holding_check: (n, CheckOutcome::AwaitingResponse), pallet_check: (n + 1, CheckOutcome::AwaitingResponse) })
}
fn minted() -> u128 {
	let x = any("minted", 1, 1 << 60);
	Cts::make(P, pot(P));
	Cts::issue(P, x);
	x
}
/// the relay chain tells that the parachain accepted the channel
pub fn accepted() {
	let para = any("para", 0, u32::MAX as u128) as u32;
	let by = any("recipient", 0, u32::MAX as u128) as u32;
	let (to, from) = (channel("to"), channel("from"));
	let n = pick("queries", &[0u64, 777]);
	pallet_xcm::QueryCounter::<Test>::put(n);
	let mut c = None;
	let t = match choice("type", 3) {
		0 => None,
		1 => Some(MigrationType::Offchain),
		_ => {
			c = checks(40, 41);
			info(para, to, from, c)
		},
	};
	let st = status();
	let pallet = matches!(t, Some(MigrationType::Pallet(_)));
	let (d, e, other) = world(st.clone(), t, para);
	assume(by != other);
	let m = minted();
	weather();
	let r = tx(|| Funding::do_handle_channel_accepted(by).map_err(|_| sp_runtime::DispatchError::CannotLookup));
	let due = pallet && st == ProjectStatus::CTMigrationStarted && by == para && to == ChannelStatus::Open && c.is_none();
	check(r.is_ok() == (due && !down()), "F11: the check starts once both channels are open, if none was started");
	if r.is_ok() {
		let mut x = d.clone();
		x.migration_type = info(para, ChannelStatus::Open, ChannelStatus::Open, begun(n));
		check(get(P) == x && get(Q) == e, "F11: an open channel starts the check and changes nothing else");
		check(started(para, n, m), "F11: the check asks the parachain for all tokens and the receiver, to answer to its queries");
		reach("checking");
	} else {
		check(quiet(&d, &e, n), "F11: a refused channel changes nothing");
		reach("refused");
	}
}
/// someone starts the check again
pub fn recheck() {
	let para = any("para", 0, u32::MAX as u128) as u32;
	let (to, from) = (channel("to"), channel("from"));
	let n = pick("queries", &[0u64, 777]);
	pallet_xcm::QueryCounter::<Test>::put(n);
	let c = checks(40, 41);
	let t = if flag("offchain") { Some(MigrationType::Offchain) } else { info(para, to, from, c) };
	let st = status();
	let pallet = matches!(t, Some(MigrationType::Pallet(_)));
	let (d, e, _) = world(st.clone(), t, para);
	let m = minted();
	let who = if flag("issuer") { ISSUER } else { 7 };
	let k = choice("kind", 3) as u8;
	cred(who, if who == ISSUER { 1 } else { 7 }, k, 1);
	weather();
	let r = tx(|| Funding::start_pallet_migration_readiness_check(signed(who), jwt(), P));
	let opened = to == ChannelStatus::Open && from == ChannelStatus::Open;
	let allowed = pallet && st == ProjectStatus::CTMigrationStarted && opened && c.is_some() && who == ISSUER && kind(k) == InvestorType::Institutional;
	if r.is_ok() {
		check(allowed, "F11: only the issuer starts the check again");
		let mut x = d.clone();
		x.migration_type = info(para, to, from, begun(n));
		check(get(P) == x && get(Q) == e, "F11: a check that starts changes nothing else");
		check(started(para, n, m), "F11: the check asks the parachain for all tokens and the receiver, to answer to its queries");
		reach("checking");
	} else {
		let failed = c.map_or(false, |c| c.holding_check.1 == CheckOutcome::Failed && c.pallet_check.1 == CheckOutcome::Failed);
		check(!(allowed && failed && !down()), "F11: the issuer can start a failed check again");
		check(quiet(&d, &e, n), "F11: a refused check changes nothing");
		reach("refused");
	}
}
fn place(name: &'static str, x: u32) -> Location {
	match choice(name, 4) {
		0 => Location::new(1, Parachain(x)),
		1 => Location::new(0, Parachain(x)),
		2 => Location::parent(),
		_ => Location::new(1, [Parachain(x), PalletInstance(3)]),
	}
}
fn pallet_info(named: bool, index: u32) -> PalletInfo {
	let n = if named { b"polimec_receiver".to_vec() } else { b"polimec_receive".to_vec() };
	PalletInfo { index, name: b"x".to_vec().try_into().unwrap(), module_name: n.try_into().unwrap(), major: 0, minor: 0, patch: 0 }
}
/// an answer to the check
pub fn answer() {
	let para = any("para", 0, u32::MAX as u128) as u32;
	let from = any("from", 0, u32::MAX as u128) as u32;
	let (h, p) = (any("holding query", 0, 1 << 30) as u64, any("pallet query", 0, 1 << 30) as u64);
	assume(h != p);
	let c = checks(h, p);
	let q = any("query", 0, 1 << 31) as u64;
	let t = info(para, ChannelStatus::Open, ChannelStatus::Open, c);
	let (d, e, _) = world(ProjectStatus::CTMigrationStarted, t, para);
	let loc = place("place", from);
	let (amount, index) = (any("amount", 0, 1 << 80), any("index", 0, 1 << 10) as u32);
	let kind = choice("answer", 9);
	let asset = |l: Location| Asset { id: AssetId(l), fun: Fungible(amount) };
	let there = place("asset", any("asset para", 0, u32::MAX as u128) as u32);
	let list = |v: Vec<PalletInfo>| Response::PalletsInfo(v.try_into().unwrap());
	let resp = match kind {
		0 => Response::Assets(vec![].into()),
		1 => Response::Assets(vec![asset(there.clone())].into()),
		2 => Response::Assets(vec![asset(there.clone()), asset(Location::here())].into()),
		3 => list(vec![]),
		4 => list(vec![pallet_info(true, index)]),
		5 => list(vec![pallet_info(false, index)]),
		6 => list(vec![pallet_info(true, index), pallet_info(true, 5)]),
		7 => Response::DispatchResult(MaybeErrorCode::Success),
		_ => Response::Null,
	};
	let origin = if flag("signed") { signed(ISSUER) } else { RuntimeOrigin::from(pallet_xcm::Origin::Response(loc.clone())) };
	let direct = matches!(origin.caller, OriginCaller::PolkadotXcm(_));
	let r = tx(|| Funding::pallet_migration_readiness_response(origin, q, resp));
	let theirs = direct && loc == Location::new(1, Parachain(para)) && c.is_some() && (q == h || q == p);
	if r.is_ok() {
		check(theirs, "F11: only the project's parachain answers its check");
		let c = c.unwrap();
		let sold = (1u128 << 70) - d.remaining_contribution_tokens;
		let mut x = c;
		if kind < 3 {
			check(c.holding_check.1 == CheckOutcome::AwaitingResponse, "F11: a check is answered once");
			let good = kind > 0 && amount >= sold && there == Location::new(1, Parachain(para));
			x.holding_check.1 = if good { CheckOutcome::Passed(None) } else { CheckOutcome::Failed };
		} else {
			check(c.pallet_check.1 == CheckOutcome::AwaitingResponse, "F11: a check is answered once");
			x.pallet_check.1 = if kind == 4 { CheckOutcome::Passed(Some(index as u8)) } else { CheckOutcome::Failed };
		}
		check(kind < 7 && kind != 3 && kind != 0 && (kind < 4 || index < 256), "F11: other answers are refused");
		let mut y = d.clone();
		y.migration_type = info(para, ChannelStatus::Open, ChannelStatus::Open, Some(x));
		check(get(P) == y && get(Q) == e, "F11: a check passes exactly if the tokens and the receiver are there");
		reach("answered");
	} else {
		let c = c.unwrap_or(Check { holding_check: (0, CheckOutcome::Failed), pallet_check: (0, CheckOutcome::Failed) });
		let waits = CheckOutcome::AwaitingResponse;
		let holding = kind == 1 && c.holding_check.1 == waits && there == Location::new(1, Parachain(para));
		let pallet = kind == 4 && c.pallet_check.1 == waits && index < 256;
		check(!(theirs && (holding || pallet)), "F11: the parachain can answer a check");
		check(quiet(&d, &e, 0), "F11: a refused answer changes nothing");
		reach("refused");
	}
}
fn some(p: u32, who: u128, n: u32) -> frame_support::BoundedVec<Migration, MaxParticipationsPerUser<Test>> {
	let mut v = frame_support::BoundedVec::new();
	for id in 0..n {
		let o = MigrationOrigin { user: Location::new(0, AccountId32 { network: None, id: Acc32::convert(who) }), id: p + id, participation_type: ParticipationType::Contribution };
		v.try_push(Migration::new(o, (any("ct", 1, 1 << 60), 6 + id as u64).into())).unwrap();
	}
	v
}
/// a user's tokens are sent
pub fn send() {
	let para = any("para", 0, u32::MAX as u128) as u32;
	let n = pick("queries", &[777u64]);
	pallet_xcm::QueryCounter::<Test>::put(n);
	let c = checks(40, 41);
	let (to, from) = CHANNEL[0];
	let t = match choice("type", 3) {
		0 => None,
		1 => Some(MigrationType::Offchain),
		_ => info(para, to, from, c),
	};
	let pallet = matches!(t, Some(MigrationType::Pallet(_)));
	let (d, e, _) = world(ProjectStatus::CTMigrationStarted, t, para);
	let was = pick("was", &[MigrationStatus::NotStarted, MigrationStatus::Failed, MigrationStatus::Sent(50), MigrationStatus::Confirmed]);
	let v = some(P, 2, pick("migrations", &[1u32, 2]));
	for (p, w) in [(P, 2u128), (P, 3), (Q, 2)] {
		UserMigrations::<Test>::insert((p, w), (was.clone(), v.clone()));
	}
	UnmigratedCounter::<Test>::insert(P, 9);
	let rest = choice("unsettled", 4);
	match rest {
		1 => Evaluations::<Test>::insert((P, 2, 5), EvaluationInfo { id: 5, did: did(2), project_id: P, evaluator: 2u128, original_plmc_bond: 1, current_plmc_bond: 1, early_usd_amount: 1, late_usd_amount: 0, when: 1u64 }),
		2 => Bids::<Test>::insert((P, 2, 5), BidInfo { id: 5, project_id: P, bidder: 2u128, did: did(2), status: BidStatus::Rejected, original_ct_amount: 1, original_ct_usd_price: price(10), funding_asset: AcceptedFundingAsset::USDT, funding_asset_amount_locked: 0, mode: ParticipationMode::OTM, plmc_bond: 0, when: 1u64 }),
		3 => Contributions::<Test>::insert((P, 2, 5), ContributionInfo { did: did(2), id: 5, project_id: P, contributor: 2u128, ct_amount: 1, usd_contribution_amount: 1, mode: ParticipationMode::OTM, funding_asset: AcceptedFundingAsset::USDT, funding_asset_amount: 1, plmc_bond: 0, when: 1u64 }),
		_ => (),
	}
	let who = pick("user", &[2u128, 5]);
	weather();
	let r = tx(|| Funding::send_pallet_migration_for(signed(7), P, who));
	let ready = c.map_or(false, |c| c.holding_check.1 == CheckOutcome::Passed(None) && c.pallet_check.1 == CheckOutcome::Passed(Some(7)));
	let waits = who == 2 && matches!(was, MigrationStatus::NotStarted | MigrationStatus::Failed);
	let due = pallet && ready && waits && rest == 0;
	check(r.is_ok() == (due && !down()), "F12: a migration is sent when everything is settled and checked, unless it was");
	if r.is_ok() {
		let mut call = vec![7u8, 0];
		call.extend(Migrations::from(v.to_vec()).encode());
		let sent = match Router::message(0) {
			Some((to, Xcm(i))) =>
				to == Location::new(1, Parachain(para)) && i.len() == 3 &&
					matches!(i[0], UnpaidExecution { .. }) &&
					matches!(&i[1], Transact { origin_kind: OriginKind::Native, call: c, .. } if c.encoded == call) &&
					matches!(&i[2], ReportTransactStatus(r) if r.query_id == n && r.destination == back()),
			None => false,
		};
		check(sent && Router::sent() == 1, "F12: exactly the user's migrations go to the parachain's receiver, once");
		check(UserMigrations::<Test>::get((P, 2)) == Some((MigrationStatus::Sent(n), v.clone())) && ActiveMigrationQueue::<Test>::get(n) == Some((P, 2)), "F12: a sent migration waits for its answer");
		let q = match pallet_xcm::Queries::<Test>::get(n) {
			Some((l, RuntimeCall::Funding(pallet_funding::Call::confirm_pallet_migrations { .. }), until)) => l == Location::new(1, Parachain(para)) && until > 30,
			_ => false,
		};
		check(q && pallet_xcm::QueryCounter::<Test>::get() == n + 1, "F12: only the parachain can answer");
		check(get(P) == d && get(Q) == e, "F12: sending changes nothing else");
		reach("sent");
	} else {
		check(quiet(&d, &e, n) && UserMigrations::<Test>::get((P, 2)) == Some((was.clone(), v.clone())) && ActiveMigrationQueue::<Test>::iter().next().is_none(), "F12: a refused migration changes nothing");
		reach("refused");
	}
	check(UnmigratedCounter::<Test>::get(P) == 9 && UserMigrations::<Test>::get((P, 3)) == Some((was.clone(), v.clone())) && UserMigrations::<Test>::get((Q, 2)) == Some((was, v)), "F12: others' migrations are not touched");
}
/// the parachain answers
pub fn done() {
	let para = any("para", 0, u32::MAX as u128) as u32;
	let from = any("from", 0, u32::MAX as u128) as u32;
	let (q1, q2) = (60, 61);
	let q = pick("query", &[60u64, 61, 62]);
	let (to, fr) = CHANNEL[0];
	let c = Check { holding_check: (1, outcome(2)), pallet_check: (2, CheckOutcome::Passed(Some(7))) };
	let (d, e, _) = world(ProjectStatus::CTMigrationStarted, info(para, to, fr, Some(c)), para);
	let n = any("waiting", 2, 1 << 20) as u32;
	UnmigratedCounter::<Test>::insert(P, n);
	UnmigratedCounter::<Test>::insert(Q, n);
	let v = some(P, 2, pick("migrations", &[1u32, 3]));
	// two users of this project wait for answers
	for (w, q) in [(2u128, q1), (3, q2)] {
		UserMigrations::<Test>::insert((P, w), (MigrationStatus::Sent(q), v.clone()));
		ActiveMigrationQueue::<Test>::insert(q, (P, w));
	}
	UserMigrations::<Test>::insert((Q, 2), (MigrationStatus::Sent(q1), v.clone()));
	let loc = place("place", from);
	let kind = choice("answer", 5);
	let resp = match kind {
		0 => Response::DispatchResult(MaybeErrorCode::Success),
		1 => Response::DispatchResult(MaybeErrorCode::Error(vec![1].try_into().unwrap())),
		2 => Response::DispatchResult(MaybeErrorCode::TruncatedError(vec![1].try_into().unwrap())),
		3 => Response::ExecutionResult(None),
		_ => Response::Null,
	};
	let origin = if flag("signed") { signed(ISSUER) } else { RuntimeOrigin::from(pallet_xcm::Origin::Response(loc.clone())) };
	let direct = matches!(origin.caller, OriginCaller::PolkadotXcm(_));
	let r = tx(|| Funding::confirm_pallet_migrations(origin, q, resp));
	let due = direct && loc == Location::new(1, Parachain(para)) && (q == q1 || q == q2) && kind < 3;
	check(r.is_ok() == due, "F12: only the parachain answers, to what it was sent");
	let (mine, theirs) = if q == q1 { (2u128, (3u128, q2)) } else { (3, (2, q1)) };
	if r.is_ok() {
		let s = if kind == 0 { MigrationStatus::Confirmed } else { MigrationStatus::Failed };
		check(UserMigrations::<Test>::get((P, mine)) == Some((s, v.clone())), "F12: the user's migration is confirmed or failed, as answered");
		check(UnmigratedCounter::<Test>::get(P) == n - (kind == 0) as u32, "F12: users whose tokens are still to migrate are counted");
		check(ActiveMigrationQueue::<Test>::get(q).is_none(), "F12: a migration is answered once");
		check(tx(|| Funding::confirm_pallet_migrations(RuntimeOrigin::from(pallet_xcm::Origin::Response(loc)), q, Response::DispatchResult(MaybeErrorCode::Success))).is_err(), "F12: a migration is answered once");
		reach(if kind == 0 { "confirmed" } else { "failed" });
	} else {
		check(ActiveMigrationQueue::<Test>::get(q1) == Some((P, 2)) && UserMigrations::<Test>::get((P, 2)) == Some((MigrationStatus::Sent(q1), v.clone())) && UnmigratedCounter::<Test>::get(P) == n, "F12: a refused answer changes nothing");
		reach("refused");
	}
	check(ActiveMigrationQueue::<Test>::get(theirs.1) == Some((P, theirs.0)) && UserMigrations::<Test>::get((P, theirs.0)) == Some((MigrationStatus::Sent(theirs.1), v.clone())), "F12: others' migrations are not touched");
	check(get(P) == d && get(Q) == e && UserMigrations::<Test>::get((Q, 2)) == Some((MigrationStatus::Sent(q1), v)) && UnmigratedCounter::<Test>::get(Q) == n && Router::sent() == 0, "F12: an answer changes nothing else");
}
