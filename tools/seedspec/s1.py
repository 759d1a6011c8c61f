PRE = r'''
#![cfg(test)]
#![allow(unused_imports, unused_variables, dead_code)]
use pool::{PoolDataKey, Positions, Request, ReserveConfig, ReserveEmissionMetadata};
use soroban_sdk::{testutils::{Address as _, Ledger, BytesN as _}, vec, Address, BytesN, Env, Error, String, Symbol, Vec};
use test_suites::{create_fixture_with_data, pool::default_reserve_metadata, test_fixture::{TestFixture, TokenIndex, SCALAR_7}};

fn rq(t: u32, a: &Address, amount: i128) -> Request {
    Request { request_type: t, address: a.clone(), amount }
}

'''
SU="pool/src/pool/submit.rs"; US="pool/src/pool/user.rs"; EM="pool/src/emissions/manager.rs"; ED="pool/src/emissions/distributor.rs"
LQ="pool/src/auctions/user_liquidation_auction.rs"; BM="backstop/src/emissions/manager.rs"; CT="pool/src/contract.rs"; PO="pool/src/pool/pool.rs"; AC="pool/src/pool/actions.rs"; CF="pool/src/pool/config.rs"
S = [
("b04","C22","a user with debt withdrawing the whole of its only collateral","the health check is skipped once no collateral is left, so the debt can be walked away from",
 [(SU,"        && new_from_state.has_liabilities()\n","        && new_from_state.has_liabilities()\n        && !new_from_state.positions.collateral.is_empty()\n")],
r'''
#[test]
fn debt_keeps_its_collateral() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let sam = Address::generate(&f.env);
    let (xlm, st) = (&f.tokens[TokenIndex::XLM], &f.tokens[TokenIndex::STABLE]);
    xlm.mint(&sam, &(10_000 * SCALAR_7));
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(2, &xlm.address, 10_000 * SCALAR_7), rq(4, &st.address, 100_000_000)]);
    assert!(p.try_submit(&sam, &sam, &sam, &vec![&f.env, rq(3, &xlm.address, 20_000 * SCALAR_7)]).is_err());
    assert_eq!(xlm.balance(&sam), 0);
}
'''),
("b05","C34","a user holding both plain supply and collateral of an emitting reserve who withdraws collateral","the plain supply earns nothing for the period settled by the withdrawal",
 [(US,"""        let balance = self.get_collateral(reserve.index);
        self.update_b_emissions(e, reserve, self.get_total_supply(reserve.index));
        let new_balance = balance - amount;""","""        let balance = self.get_collateral(reserve.index);
        self.update_b_emissions(e, reserve, balance);
        let new_balance = balance - amount;""")],
r'''
#[test]
fn both_kinds_of_supply_earn() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let (sam, pip) = (Address::generate(&f.env), Address::generate(&f.env));
    let xlm = &f.tokens[TokenIndex::XLM];
    for u in [&sam, &pip] { xlm.mint(u, &(20_000 * SCALAR_7)); }
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(0, &xlm.address, 10_000 * SCALAR_7), rq(2, &xlm.address, 10_000 * SCALAR_7)]);
    p.submit(&pip, &pip, &pip, &vec![&f.env, rq(0, &xlm.address, 20_000 * SCALAR_7)]);
    f.jump(24 * 60 * 60);
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(3, &xlm.address, 1000)]);
    p.submit(&pip, &pip, &pip, &vec![&f.env, rq(1, &xlm.address, 1000)]);
    let (a, b) = (p.claim(&sam, &vec![&f.env, 3], &sam), p.claim(&pip, &vec![&f.env, 3], &pip));
    assert!(a > 0 && (a - b).abs() < 10, "{a} {b}");
}
'''),
("b06","C35","a gulp after the previous schedule expired","the new schedule also pays for the gap between the old expiry and the gulp, more than was assigned",
 [(EM,"        if emission_data.last_time != e.ledger().timestamp() {","        if emission_data.last_time < emis_config.expiration {")],
r'''
#[test]
fn a_schedule_starts_when_gulped() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    f.jump(14 * 24 * 60 * 60);
    p.claim(&f.users[0], &vec![&f.env, 3], &f.users[0]);
    f.emitter.distribute();
    f.backstop.gulp_emissions();
    p.gulp_emissions();
    f.jump(100);
    let c = p.claim(&f.users[0], &vec![&f.env, 3], &f.users[0]);
    let (cfg, _) = f.read_reserve_emissions(0, TokenIndex::XLM, 1);
    assert!(c <= 100 * cfg.eps as i128, "{c} {}", cfg.eps);
}
'''),
("b07","C33","claiming after the whole position was withdrawn","what accrued before the withdrawal is not paid",
 [(ED,"                to_claim += claim_emissions(","                if user_balance == 0 {\n                    // nothing held, nothing to claim\n                    continue;\n                }\n                to_claim += claim_emissions(")],
r'''
#[test]
fn what_accrued_is_paid_after_leaving() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let sam = Address::generate(&f.env);
    let xlm = &f.tokens[TokenIndex::XLM];
    xlm.mint(&sam, &(20_000 * SCALAR_7));
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(0, &xlm.address, 20_000 * SCALAR_7)]);
    f.jump(24 * 60 * 60);
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(1, &xlm.address, 30_000 * SCALAR_7)]);
    assert!(p.claim(&sam, &vec![&f.env, 3], &sam) > 0);
}
'''),
("b08","C36","a split naming the index just past the last reserve","the split is accepted and every later gulp fails",
 [(EM,"metadata.res_type > 1 || reserve_list.get(metadata.res_index).is_none()","metadata.res_type > 1 || metadata.res_index > reserve_list.len()")],
r'''
#[test]
fn only_listed_reserves_get_emissions() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let m = |i: u32| ReserveEmissionMetadata { res_index: i, res_type: 1, share: 0_5000000 };
    assert!(p.try_set_emissions_config(&vec![&f.env, m(2)]).is_ok());
    assert!(p.try_set_emissions_config(&vec![&f.env, m(3)]).is_err());
}
'''),
("b09","C26","a second liquidation for the rest while a partial one is open","an open auction is silently replaced, restarting its price",
 [(LQ,"    if storage::has_auction(e, &(AuctionType::UserLiquidation as u32), user) {","    if percent_liquidated < 100\n        && storage::has_auction(e, &(AuctionType::UserLiquidation as u32), user)\n    {")],
r'''
#[test]
fn one_liquidation_at_a_time() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let sam = Address::generate(&f.env);
    let (xlm, st) = (&f.tokens[TokenIndex::XLM], &f.tokens[TokenIndex::STABLE]);
    xlm.mint(&sam, &(10_000 * SCALAR_7));
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(2, &xlm.address, 10_000 * SCALAR_7), rq(4, &st.address, 700_000_000)]);
    f.oracle.set_price_stable(&vec![&f.env, 2000_0000000, 1_0000000, 0_0712000, 1_0000000]);
    // find a size the pool accepts
    let mut pct = 0;
    for q in 1..100u64 {
        if p.try_new_liquidation_auction(&sam, &q).is_ok() { pct = q; break; }
    }
    // now make the full size acceptable and ask again
    f.oracle.set_price_stable(&vec![&f.env, 2000_0000000, 1_0000000, 0_0300000, 1_0000000]);
    assert!(pct == 0 || p.try_new_liquidation_auction(&sam, &100).is_err());
    assert!(pct != 0);
}
'''),
("b10","C09","two gulps into the backstop before the pool collects","a pool that does not collect between two gulps loses the smaller of them",
 [(BM,"current_emissions + new_pool_emissions","new_pool_emissions.max(current_emissions)")],
r'''
#[test]
fn uncollected_emissions_add_up() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    f.jump(24 * 60 * 60);
    f.emitter.distribute();
    let a = f.backstop.gulp_emissions();
    f.jump(24 * 60 * 60);
    f.emitter.distribute();
    let b = f.backstop.gulp_emissions();
    let got = p.gulp_emissions();
    assert!((got - (a + b) * 3 / 10).abs() < 10, "{a} {b} {got}");
}
'''),
("b11","C13","an update asking for a take rate of exactly 100%","the pool accepts a 100% take rate",
 [(CF,"    if backstop_take_rate >= SCALAR_7 as u32 {","    if backstop_take_rate > SCALAR_7 as u32 {")],
r'''
#[test]
fn suppliers_keep_something() {
    let f = create_fixture_with_data(false);
    assert!(f.pools[0].pool.try_update_pool(&1_0000000, &4).is_err());
    assert!(f.pools[0].pool.try_update_pool(&0_9999999, &4).is_ok());
}
'''),
("b12","C21","a spender acting for another user who is also the recipient","anyone can withdraw, borrow or repay for a user without that user's authorisation",
 [(CT,"""        spender.require_auth();
        if from != spender {""","""        spender.require_auth();
        if from != spender && from != to {""")],
r'''
#[test]
fn the_user_authorises() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let (sam, pip) = (Address::generate(&f.env), Address::generate(&f.env));
    let xlm = &f.tokens[TokenIndex::XLM];
    xlm.mint(&pip, &(20_000 * SCALAR_7));
    p.submit(&sam, &pip, &sam, &vec![&f.env, rq(0, &xlm.address, 20_000 * SCALAR_7)]);
    let a: std::vec::Vec<Address> = f.env.auths().iter().map(|x| x.0.clone()).collect();
    assert!(a.contains(&sam) && a.contains(&pip));
}
'''),
("b13","C07","a claim sent to someone else","the re-deposited shares are added to the claimer's balance and overwrite the recipient's",
 [("backstop/src/emissions/claim.rs","let mut user_balance = storage::get_user_balance(e, &pool_id, to);","let mut user_balance = storage::get_user_balance(e, &pool_id, from);")],
r'''
#[test]
fn the_recipient_keeps_its_shares() {
    let f = create_fixture_with_data(false);
    let (frodo, sam) = (&f.users[0], Address::generate(&f.env));
    let pool = &f.pools[0].pool.address;
    f.jump(24 * 60 * 60);
    let c = f.backstop.claim(frodo, &vec![&f.env, pool.clone()], &sam);
    assert!(c > 0);
    let (a, b) = (f.backstop.user_balance(pool, frodo).shares, f.backstop.user_balance(pool, &sam).shares);
    assert_eq!(a, 50_000 * SCALAR_7);
    assert!(b < 50_000 * SCALAR_7);
}
'''),
("b14","C05","a withdrawal of one share more than has unlocked","one share leaves before its 21 days are over",
 [("backstop/src/backstop/user.rs","if left_to_dequeue > 0 {","if left_to_dequeue > 1 {")],
r'''
#[test]
fn only_unlocked_shares_leave() {
    let f = create_fixture_with_data(false);
    let frodo = &f.users[0];
    let pool = &f.pools[0].pool.address;
    f.backstop.queue_withdrawal(frodo, pool, &1000);
    f.jump(10);
    f.backstop.queue_withdrawal(frodo, pool, &1000);
    f.jump(21 * 24 * 60 * 60 - 5);
    assert!(f.backstop.try_withdraw(frodo, pool, &1001).is_err());
    assert!(f.backstop.try_withdraw(frodo, pool, &1000).is_ok());
}
'''),
("b15","C23","a pool on ice","a user can delete its own liquidation while the pool is on ice",
 [(PO,"(action_type == 4 || action_type == 9)","action_type == 4")],
r'''
#[test]
fn no_deletion_on_ice() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let sam = Address::generate(&f.env);
    let (xlm, st) = (&f.tokens[TokenIndex::XLM], &f.tokens[TokenIndex::STABLE]);
    xlm.mint(&sam, &(10_000 * SCALAR_7));
    st.mint(&sam, &100_000_000);
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(2, &xlm.address, 10_000 * SCALAR_7), rq(4, &st.address, 700_000_000)]);
    f.oracle.set_price_stable(&vec![&f.env, 2000_0000000, 1_0000000, 0_0300000, 1_0000000]);
    p.new_liquidation_auction(&sam, &100);
    f.oracle.set_price_stable(&vec![&f.env, 2000_0000000, 1_0000000, 0_1000000, 1_0000000]);
    p.set_status(&2);
    assert!(p.try_submit(&sam, &sam, &sam, &vec![&f.env, rq(9, &sam, 0)]).is_err());
}
'''),
("b16","C24","a user at the maximum who opens exactly one more position","each call can add one position above the maximum",
 [(PO,"        if new_num > previous_num && self.config.max_positions < new_num {","        if new_num > previous_num + 1 && self.config.max_positions < new_num {")],
r'''
#[test]
fn the_maximum_holds() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    p.update_pool(&0_1000000, &2);
    let sam = Address::generate(&f.env);
    let toks = [&f.tokens[TokenIndex::XLM], &f.tokens[TokenIndex::STABLE], &f.tokens[TokenIndex::WETH]];
    for t in toks { t.mint(&sam, &(10_000 * SCALAR_7)); }
    let mut ok = 0;
    for t in toks {
        if p.try_submit(&sam, &sam, &sam, &vec![&f.env, rq(2, &t.address, 10_0000000)]).is_ok() { ok += 1; }
    }
    assert_eq!(ok, 2);
}
'''),
("b17","C21","one submit that supplies the same asset twice","only the larger of the two amounts is collected while both are credited",
 [(AC,"amount + self.spender_transfer.get(asset.clone()).unwrap_or(0),","amount.max(self.spender_transfer.get(asset.clone()).unwrap_or(0)),")],
r'''
#[test]
fn everything_supplied_is_collected() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let sam = Address::generate(&f.env);
    let xlm = &f.tokens[TokenIndex::XLM];
    xlm.mint(&sam, &(20_000 * SCALAR_7));
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(0, &xlm.address, 10_000 * SCALAR_7), rq(2, &xlm.address, 10_000 * SCALAR_7)]);
    assert_eq!(xlm.balance(&sam), 0);
}
'''),
]
