PRE = r'''
#![cfg(test)]
#![allow(unused_imports, unused_variables, dead_code)]
use pool::{PoolDataKey, Positions, Request, ReserveConfig, ReserveData, ReserveEmissionMetadata};
use soroban_sdk::{testutils::{Address as _, Ledger, BytesN as _}, vec, Address, BytesN, Env, Error, String, Symbol, Vec};
use test_suites::{create_fixture_with_data, pool::default_reserve_metadata, test_fixture::{TestFixture, TokenIndex, SCALAR_7}};

fn rq(t: u32, a: &Address, amount: i128) -> Request {
    Request { request_type: t, address: a.clone(), amount }
}

'''
SU="pool/src/pool/submit.rs"; US="pool/src/pool/user.rs"; EM="pool/src/emissions/manager.rs"; ED="pool/src/emissions/distributor.rs"
LQ="pool/src/auctions/user_liquidation_auction.rs"; BM="backstop/src/emissions/manager.rs"; CT="pool/src/contract.rs"; PO="pool/src/pool/pool.rs"; AC="pool/src/pool/actions.rs"; CF="pool/src/pool/config.rs"
ST="pool/src/pool/status.rs"; IN="pool/src/pool/interest.rs"; BP="backstop/src/backstop/pool.rs"; BU="backstop/src/backstop/user.rs"; SG="pool/src/storage.rs"
S = [
("b09","C32","a second liquidation of the full position while one of a smaller size is on","the running auction is overwritten and restarts",
 [(LQ,"    if storage::has_auction(e, &(AuctionType::UserLiquidation as u32), user) {","    if percent_liquidated < 100\n        && storage::has_auction(e, &(AuctionType::UserLiquidation as u32), user)\n    {")],
r'''
#[test]
fn one_liquidation_at_a_time() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let sam = Address::generate(&f.env);
    let (xlm, st) = (&f.tokens[TokenIndex::XLM], &f.tokens[TokenIndex::STABLE]);
    xlm.mint(&sam, &(10_000 * SCALAR_7));
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(2, &xlm.address, 10_000 * SCALAR_7), rq(4, &st.address, 700_000_000)]);
    // find a size the pool accepts
    let mut pct = 0;
    for price in [0_0980000, 0_0970000, 0_0950000] {
        f.oracle.set_price_stable(&vec![&f.env, 2000_0000000, 1_0000000, price, 1_0000000]);
        for q in 1..100u64 {
            if p.try_new_liquidation_auction(&sam, &q).is_ok() { pct = q; break; }
        }
        if pct != 0 { break; }
    }
    assert!(pct != 0);
    // now make the full size acceptable and ask again
    f.oracle.set_price_stable(&vec![&f.env, 2000_0000000, 1_0000000, 0_0700000, 1_0000000]);
    assert!(p.try_new_liquidation_auction(&sam, &100).is_err());
}
'''),
("c01","C14","a reserve queued while the pool is frozen","it can be set at once, without the week's delay",
 [(CF,"    if storage::get_pool_config(e).status != 6 {","    if storage::get_pool_config(e).status < 4 {")],
r'''
#[test]
fn a_frozen_pool_still_waits() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    p.set_status(&4);
    let a = f.tokens[TokenIndex::USDC].address.clone();
    p.queue_set_reserve(&a, &default_reserve_metadata());
    assert!(p.try_set_reserve(&a).is_err());
    f.jump(7 * 24 * 60 * 60);
    assert!(p.try_set_reserve(&a).is_ok());
}
'''),
("c02","C14","a queued configuration that was already carried out","it stays queued and anyone can apply it again later, undoing what came in between, and no new one can be queued",
 [(CF,"    // remove queued reserve\n    storage::del_queued_reserve_set(e, asset);\n","    if !storage::has_res(e, asset) {\n        storage::del_queued_reserve_set(e, asset);\n    }\n")],
r'''
#[test]
fn a_queued_configuration_is_used_once() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let a = f.tokens[TokenIndex::XLM].address.clone();
    let mut c = default_reserve_metadata();
    c.c_factor = 0_7000000;
    p.queue_set_reserve(&a, &c);
    f.jump(7 * 24 * 60 * 60);
    p.set_reserve(&a);
    assert!(p.try_set_reserve(&a).is_err());
    p.queue_set_reserve(&a, &c);
}
'''),
("c03","C14","an existing reserve reconfigured with fewer decimals","the scale of all balances and prices of the reserve changes under its holders",
 [(CF,"        if reserve_config.decimals != config.decimals {","        if reserve_config.decimals < config.decimals {")],
r'''
#[test]
fn decimals_are_fixed() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let a = f.tokens[TokenIndex::XLM].address.clone();
    let mut c = default_reserve_metadata();
    c.decimals = 6;
    p.queue_set_reserve(&a, &c);
    f.jump(7 * 24 * 60 * 60);
    assert!(p.try_set_reserve(&a).is_err());
}
'''),
("c04","C13","cancelling a queued reserve of a reserve that exists already","anyone can cancel the admin's queued change",
 [(CT,"        let admin = storage::get_admin(&e);\n        admin.require_auth();\n\n        pool::execute_cancel_queued_set_reserve","        let admin = storage::get_admin(&e);\n        if !storage::has_res(&e, &asset) {\n            admin.require_auth();\n        }\n\n        pool::execute_cancel_queued_set_reserve")],
r'''
#[test]
fn only_the_admin_cancels() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let a = f.tokens[TokenIndex::XLM].address.clone();
    p.queue_set_reserve(&a, &default_reserve_metadata());
    f.env.set_auths(&[]);
    assert!(p.try_cancel_set_reserve(&a).is_err());
}
'''),
("c05","C15","a pool that is on ice whose backstop is below the threshold","anyone can put it back to active although its backstop does not meet the threshold",
 [(ST,"            } else if pool_backstop_data.q4w_pct >= 0_3000000 || !met_threshold {","            } else if pool_backstop_data.q4w_pct >= 0_3000000\n                || (!met_threshold && pool_config.status == 1)\n            {")],
r'''
#[test]
fn an_unfunded_pool_stays_on_ice() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    f.backstop.draw(&p.address, &(49_000 * SCALAR_7), &f.users[0]);
    p.update_status();
    assert_eq!(p.update_status(), 3);
    assert_eq!(p.update_status(), 3);
}
'''),
("c06","C17","utilisation above 95%","the steep part of the rate is scaled by the rate modifier too and drifts up to ten times too high",
 [(IN,"        cur_ir = extra_rate + intersection;","        cur_ir = extra_rate\n            .fixed_mul_ceil(ir_mod, SCALAR_9)\n            .unwrap_optimized()\n            + intersection;")],
r'''
#[test]
fn the_steep_part_is_not_scaled() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let xlm = &f.tokens[TokenIndex::XLM];
    // a reserve at 98% with a rate modifier of 2
    f.env.as_contract(&p.address, || {
        let k = PoolDataKey::ResData(xlm.address.clone());
        let mut d: ReserveData = f.env.storage().persistent().get(&k).unwrap();
        d.b_rate = 1_000_000_000;
        d.d_rate = 1_000_000_000;
        d.b_supply = 100_000 * SCALAR_7;
        d.d_supply = 98_000 * SCALAR_7;
        d.ir_mod = 2_000_000_000;
        d.last_time = f.env.ledger().timestamp();
        f.env.storage().persistent().set(&k, &d);
    });
    let c = f.read_reserve_config(0, TokenIndex::XLM);
    let dt = 31_536_00;
    f.jump(dt);
    let sam = Address::generate(&f.env);
    xlm.mint(&sam, &SCALAR_7);
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(0, &xlm.address, SCALAR_7)]);
    let d = f.read_reserve_data(0, TokenIndex::XLM);
    let rate = (c.r_three as i128) * 3 / 5 + 2 * (c.r_two + c.r_one + c.r_base) as i128;
    let want = 1_000_000_000 + rate * 100 * (dt as i128) / 31_536_000;
    assert!((d.d_rate - want).abs() < 1000, "{} {}", d.d_rate, want);
}
'''),
("c07","C04","a pool whose shares outlive its tokens, all of them drawn","a deposit is taken at one share per token, and the old shareholders own part of it",
 [(BP,"        if self.shares == 0 {\n            return tokens;","        if self.shares == 0 || self.tokens == 0 {\n            return tokens;")],
r'''
#[test]
fn no_deposit_into_worthless_shares() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let frodo = &f.users[0];
    let b = f.backstop.pool_data(&p.address);
    f.backstop.draw(&p.address, &b.tokens, frodo);
    assert!(f.backstop.try_deposit(frodo, &p.address, &(1000 * SCALAR_7)).is_err());
}
'''),
("c08","C05","two withdrawals queued less than an hour apart","the second is merged into the first's entry and unlocks early",
 [(BU,"        let new_q4w = Q4W {","        if let Some(mut last) = self.q4w.last() {\n            if last.exp + 60 * 60 > e.ledger().timestamp() + Q4W_LOCK_TIME {\n                last.amount += to_q;\n                self.q4w.set(self.q4w.len() - 1, last);\n                return;\n            }\n        }\n        let new_q4w = Q4W {")],
r'''
#[test]
fn each_entry_waits_in_full() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let frodo = &f.users[0];
    f.backstop.queue_withdrawal(frodo, &p.address, &(100 * SCALAR_7));
    f.jump(59 * 60);
    f.backstop.queue_withdrawal(frodo, &p.address, &(1000 * SCALAR_7));
    f.jump(21 * 24 * 60 * 60 - 59 * 60);
    assert!(f.backstop.try_withdraw(frodo, &p.address, &(500 * SCALAR_7)).is_err());
    f.backstop.withdraw(frodo, &p.address, &(100 * SCALAR_7));
}
'''),
("c10","C38","a reserve that is only ever used, never reconfigured","its configuration record is no longer extended by use and expires, taking the reserve with it",
 [(SG,"    let key = PoolDataKey::ResConfig(asset.clone());\n    e.storage()\n        .persistent()\n        .extend_ttl(&key, LEDGER_THRESHOLD_SHARED, LEDGER_BUMP_SHARED);\n    e.storage()\n        .persistent()\n        .get::<PoolDataKey, ReserveConfig>","    let key = PoolDataKey::ResConfig(asset.clone());\n    e.storage()\n        .persistent()\n        .get::<PoolDataKey, ReserveConfig>")],
r'''
#[test]
fn use_keeps_the_configuration_alive() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let xlm = &f.tokens[TokenIndex::XLM];
    let sam = Address::generate(&f.env);
    xlm.mint(&sam, &(10 * SCALAR_7));
    let ttl = || {
        f.env.to_ledger_snapshot().ledger_entries.iter().filter(|(k, _)| format!("{:?}", k).contains("ResConfig")).map(|(_, (_, l))| l.unwrap_or(0)).max().unwrap() - f.env.ledger().sequence()
    };
    for _ in 0..1 {
        f.jump_with_sequence(15 * 24 * 60 * 60);
        p.submit(&sam, &sam, &sam, &vec![&f.env, rq(0, &xlm.address, SCALAR_7)]);
    }
    assert!(ttl() >= 17280 * 45, "{}", ttl());
}
'''),
("c11","C20","a borrow repaid in part within the same call","the utilisation cap is only enforced on the net debt of the call",
 [(AC,"                reserve.require_utilization_below_max(e);\n","                if request.amount > actions.spender_transfer.get(request.address.clone()).unwrap_or(0) {\n                    reserve.require_utilization_below_max(e);\n                }\n")],
r'''
#[test]
fn every_borrow_is_capped() {
    let f = create_fixture_with_data(false);
    let p = &f.pools[0].pool;
    let frodo = &f.users[0];
    let (xlm, st) = (&f.tokens[TokenIndex::XLM], &f.tokens[TokenIndex::STABLE]);
    // lots of collateral elsewhere
    let we = &f.tokens[TokenIndex::WETH];
    let sam = Address::generate(&f.env);
    we.mint(&sam, &100_000_000_000);
    st.mint(&sam, &(100_000 * 1_000_000));
    p.submit(&sam, &sam, &sam, &vec![&f.env, rq(2, &we.address, 50_000_000_000)]);
    // supply, drain past the cap, withdraw what was supplied
    let r = p.try_submit(&sam, &sam, &sam, &vec![&f.env, rq(0, &st.address, 1_990_000_000), rq(1, &st.address, 1_980_000_000), rq(4, &st.address, 1_950_000_000)]);
    assert!(r.is_err());
}
'''),
]
