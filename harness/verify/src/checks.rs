use common::chain::{
    config::create_unit_test_config_builder,
    htlc::{HashedTimelockContract, HtlcSecretHash},
    output_value::OutputValue,
    signature::inputsig::InputWitness,
    stakelock::StakePoolData,
    timelock::OutputTimeLock,
    tokens::*,
    AccountCommand, AccountNonce, AccountSpending, ChainConfig, ChainstateUpgrade, ChangeTokenMetadataUriActivated,
    ChangeTokenMetadataUriValidityCheckRequired, DataDepositFeeVersion, DelegationId, Destination,
    FrozenTokensValidationVersion, HtlcActivated, NetUpgrades, OrderAccountCommand, OrderData, OrderId, OrdersActivated,
    OrdersVersion, OutPointSourceId, PoolId, PoolIdMismatchInKernelUtxoAndPoSDataForbidden, RewardDistributionVersion,
    SighashInputCommitmentVersion, SignedTransaction, StakerDestinationUpdateForbidden, TokenIdGenerationVersion,
    TokenIssuanceVersion, TokensFeeVersion, Transaction, TxInput, TxOutput, ZeroTokenTransferForbidden,
};
use common::primitives::{per_thousand::PerThousand, Amount, BlockHeight, Id, H256};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey};
use serialization::Encode;
use tx_verifier::{check_nft_issuance_data, check_tokens_issuance, check_transaction};

const ANY: Destination = Destination::AnyoneCanSpend;
const PLAIN: InputWitness = InputWitness::NoSignature(None);

fn am(v: u128) -> Amount {
    Amount::from_atoms(v)
}
fn h(k: u8) -> H256 {
    H256([k; 32])
}
fn tid(k: u8) -> TokenId {
    TokenId::new(h(k))
}
fn utxo(index: u32) -> TxInput {
    TxInput::from_utxo(OutPointSourceId::Transaction(Id::new(h(1))), index)
}
fn coins(v: u128) -> TxOutput {
    TxOutput::Transfer(OutputValue::Coin(am(v)), ANY)
}
fn tx(ins: Vec<(TxInput, InputWitness)>, outs: Vec<TxOutput>) -> SignedTransaction {
    let (ins, sigs) = ins.into_iter().unzip();
    SignedTransaction::new(Transaction::new(0, ins, outs).unwrap(), sigs).unwrap()
}

/// Which rules are in force.
#[derive(Clone, Copy)]
struct Rules {
    tokens_v1: bool,
    htlc: bool,
    orders: bool,
    orders_v1: bool,
    uri_change: bool,
    uri_check: bool,
    deposit_v1: bool,
}

impl Rules {
    fn any() -> Self {
        Rules {
            tokens_v1: sym::boolean("tokens v1"),
            htlc: sym::boolean("htlc"),
            orders: sym::boolean("orders"),
            orders_v1: sym::boolean("orders v1"),
            uri_change: sym::boolean("uri change"),
            uri_check: sym::boolean("uri check"),
            deposit_v1: sym::boolean("deposit v1"),
        }
    }
    fn upgrade(self) -> ChainstateUpgrade {
        ChainstateUpgrade::new(
            if self.tokens_v1 { TokenIssuanceVersion::V1 } else { TokenIssuanceVersion::V0 },
            RewardDistributionVersion::V1,
            TokensFeeVersion::V1,
            if self.deposit_v1 { DataDepositFeeVersion::V1 } else { DataDepositFeeVersion::V0 },
            if self.uri_change { ChangeTokenMetadataUriActivated::Yes } else { ChangeTokenMetadataUriActivated::No },
            FrozenTokensValidationVersion::V1,
            if self.htlc { HtlcActivated::Yes } else { HtlcActivated::No },
            if self.orders { OrdersActivated::Yes } else { OrdersActivated::No },
            if self.orders_v1 { OrdersVersion::V1 } else { OrdersVersion::V0 },
            StakerDestinationUpdateForbidden::Yes,
            TokenIdGenerationVersion::V1,
            SighashInputCommitmentVersion::V1,
            PoolIdMismatchInKernelUtxoAndPoSDataForbidden::Yes,
            ZeroTokenTransferForbidden::Yes,
            if self.uri_check {
                ChangeTokenMetadataUriValidityCheckRequired::Yes
            } else {
                ChangeTokenMetadataUriValidityCheckRequired::No
            },
        )
    }
}

/// A chain whose rules change at one height; the rules at the height of the transaction are the ones returned.
fn world() -> (ChainConfig, BlockHeight, Rules) {
    let (old, new) = (Rules::any(), Rules::any());
    let (at, height) = (sym::u64("upgrade"), sym::u64("height"));
    sym::assume(at > 0);
    let ups = NetUpgrades::initialize(vec![(BlockHeight::new(0), old.upgrade()), (BlockHeight::new(at), new.upgrade())]);
    let cfg = create_unit_test_config_builder().chainstate_upgrades(ups.unwrap()).build();
    (cfg, BlockHeight::new(height), if height >= at { new } else { old })
}

fn plain() -> ChainConfig {
    create_unit_test_config_builder()
        .data_in_no_signature_witness_allowed(true)
        .data_in_no_signature_witness_max_size(2)
        .data_deposit_max_size(Some(3))
        .build()
}

const H: BlockHeight = BlockHeight::new(5);

fn ok(cfg: &ChainConfig, at: BlockHeight, t: &SignedTransaction) -> bool {
    check_transaction(cfg, at, t).is_ok()
}

fn said(good: bool) {
    if good {
        sym::cover("accepted")
    } else {
        sym::cover("refused")
    }
}

fn input(slot: usize) -> TxInput {
    let n = AccountNonce::new(sym::u64("nonce"));
    match sym::choose("kind", 4) {
        0 => utxo(sym::u32("index")),
        1 => TxInput::from_account(n, AccountSpending::DelegationBalance(DelegationId::new(h(2)), am(slot as u128 / 2))),
        2 => TxInput::from_command(n, AccountCommand::UnmintTokens(tid(sym::boolean("token") as u8))),
        _ => TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(OrderId::new(h(sym::boolean("order") as u8)))),
    }
}

//@ prop=D05
//@ time=60
//@ covers=no input|repeated|accepted
//@ bounds=up to three inputs, two of them of four kinds with any output index and nonce
#[no_mangle]
pub extern "C" fn h_tx_inputs() {
    let cfg = plain();
    let n = sym::choose("inputs", 4);
    // the third is one of the fixed inputs the other two may be
    let ins: Vec<_> = (0..n).map(|k| if k < 2 { input(k) } else { utxo(1) }).collect();
    let same = (0..n).any(|a| (0..a).any(|b| ins[a] == ins[b]));
    let t = tx(ins.into_iter().map(|i| (i, PLAIN)).collect(), vec![coins(1)]);
    let good = ok(&cfg, H, &t);
    if n == 0 {
        sym::cover("no input")
    } else if same {
        sym::cover("repeated")
    } else {
        sym::cover("accepted")
    }
    sym::check(good == (n > 0 && !same), "a transaction has inputs, and none of them twice");
}

//@ prop=D05
//@ time=60
//@ covers=accepted|refused
//@ bounds=a data deposit of 0 to 5 bytes against a limit of 3, and two witnesses of none or 0 to 4 bytes against a limit of 2, allowed or not
#[no_mangle]
pub extern "C" fn h_tx_data() {
    let allowed = sym::flag("allowed");
    let cfg = create_unit_test_config_builder()
        .data_in_no_signature_witness_allowed(allowed)
        .data_in_no_signature_witness_max_size(2)
        .data_deposit_max_size(Some(3))
        .build();
    let d = sym::choose("deposit", 6);
    let w: [Option<usize>; 2] = [0, 1].map(|_| if sym::flag("data") { Some(sym::choose("length", 5)) } else { None });
    let wit = |k: usize| InputWitness::NoSignature(w[k].map(|n| sym::vec("data", n)));
    let t = tx(vec![(utxo(1), wit(0)), (utxo(2), wit(1))], vec![coins(1), TxOutput::DataDeposit(sym::vec("deposit", d))]);
    let good = d <= 3 && w.iter().flatten().all(|n| allowed && *n <= 2);
    said(good);
    sym::check(ok(&cfg, H, &t) == good, "data beyond the limits, or where none is allowed, is refused");
}

//@ prop=D05
//@ time=60
//@ covers=accepted|refused
//@ bounds=a transaction of one input and deposit of 0 to 70 bytes, any limit on the size of transactions up to 300
#[no_mangle]
pub extern "C" fn h_tx_size() {
    let limit = sym::range("limit", 0, 300) as usize;
    let n = sym::choose("length", 71);
    let t = tx(vec![(utxo(1), PLAIN)], vec![TxOutput::DataDeposit(vec![1; n])]);
    let cfg = create_unit_test_config_builder()
        .data_deposit_max_size(Some(1000))
        .max_block_size_with_standard_txs(limit)
        .max_block_size_with_smart_contracts(0)
        .build();
    let good = t.encode().len() <= limit;
    said(good);
    sym::check(ok(&cfg, H, &t) == good, "a transaction is no larger than what a block may hold");
}

fn key() -> VRFPublicKey {
    VRFPrivateKey::new_using_random_bytes(&[3; 32], VRFKeyKind::Schnorrkel).unwrap().1
}

/// a value, whether it is of the first kind of tokens, and which currency it is (none for the first kind)
fn value(k: usize) -> (OutputValue, bool, Option<u8>) {
    match k {
        0 => (OutputValue::Coin(am(7)), false, Some(255)),
        1 => {
            let t = TokenTransfer { token_id: tid(1), amount: am(7) };
            (OutputValue::TokenV0(Box::new(TokenData::TokenTransfer(t))), true, None)
        }
        _ => {
            let t = sym::boolean("token") as u8;
            (OutputValue::TokenV1(tid(t), am(7)), false, Some(t))
        }
    }
}

fn nft() -> Metadata {
    Metadata {
        creator: None,
        name: b"Name".to_vec(),
        description: b"Words".to_vec(),
        ticker: b"TICK".to_vec(),
        icon_uri: None.into(),
        additional_metadata_uri: None.into(),
        media_uri: None.into(),
        media_hash: vec![4; 8],
    }
}

fn token() -> TokenIssuanceV1 {
    TokenIssuanceV1 {
        token_ticker: b"TICK".to_vec(),
        number_of_decimals: 3,
        metadata_uri: b"http://a.b".to_vec(),
        total_supply: TokenTotalSupply::Unlimited,
        authority: ANY,
        is_freezable: IsTokenFreezable::Yes,
    }
}

fn issue(k: usize) -> TxOutput {
    match k {
        0 => TxOutput::IssueFungibleToken(Box::new(TokenIssuance::V1(token()))),
        _ => TxOutput::IssueNft(tid(9), Box::new(NftIssuance::V0(NftIssuanceV0 { metadata: nft() })), ANY),
    }
}

//@ prop=D05
//@ time=120
//@ covers=accepted|refused
//@ bounds=one output of any kind holding any kind of value, rules that change once at any height, any height
#[no_mangle]
pub extern "C" fn h_tx_output_rules() {
    let vrf = key();
    let (cfg, at, r) = world();
    let lock = OutputTimeLock::ForBlockCount(3);
    let kind = sym::choose("kind", 12);
    // of the kinds that hold a value
    let (v, old, cur) = value(if matches!(kind, 0 | 1 | 2 | 3 | 4) { sym::choose("value", 3) } else { 0 });
    let mut good = !(old && r.tokens_v1);
    let out = match kind {
        0 => TxOutput::Transfer(v, ANY),
        1 => TxOutput::LockThenTransfer(v, ANY, lock),
        2 => TxOutput::Burn(v),
        3 => {
            good &= r.htlc;
            let secret_hash = HtlcSecretHash([1; 20]);
            let c = HashedTimelockContract { secret_hash, spend_key: ANY, refund_timelock: lock, refund_key: ANY };
            TxOutput::Htlc(v, Box::new(c))
        }
        4 => {
            let (give, old, other) = value(sym::choose("give", 3));
            good &= r.orders && cur != other && !(old && r.tokens_v1);
            TxOutput::CreateOrder(Box::new(OrderData::new(ANY, v, give)))
        }
        5 => {
            let data = StakePoolData::new(am(5), ANY, vrf, ANY, PerThousand::new(5).unwrap(), am(1));
            TxOutput::CreateStakePool(PoolId::new(h(3)), Box::new(data))
        }
        6 => TxOutput::ProduceBlockFromStake(ANY, PoolId::new(h(3))),
        7 => TxOutput::CreateDelegationId(ANY, PoolId::new(h(3))),
        8 => TxOutput::DelegateStaking(am(1), DelegationId::new(h(3))),
        9 => issue(0),
        10 => issue(1),
        _ => {
            // the published limits on a deposit
            let n = [0, 128, 129, 384, 385][sym::choose("length", 5)];
            good = n <= if r.deposit_v1 { 384 } else { 128 };
            TxOutput::DataDeposit(vec![7; n])
        }
    };
    said(good);
    let t = tx(vec![(utxo(1), PLAIN)], vec![coins(1), out, coins(2)]);
    sym::check(ok(&cfg, at, &t) == good, "an output is allowed exactly when the rules in force at that height say so");
}

//@ prop=D05
//@ time=120
//@ covers=accepted|refused
//@ bounds=one input of any kind, any fill amount, rules that change once at any height, any height
#[no_mangle]
pub extern "C" fn h_tx_input_rules() {
    let (cfg, at, r) = world();
    let n = AccountNonce::new(sym::u64("nonce"));
    let amount = sym::u8("amount") as u128;
    let (t, o) = (tid(1), OrderId::new(h(2)));
    let com = |c| TxInput::from_command(n, c);
    let (input, good) = match sym::choose("kind", 14) {
        0 => (utxo(sym::u32("index")), true),
        1 => (TxInput::from_account(n, AccountSpending::DelegationBalance(DelegationId::new(h(2)), am(amount))), true),
        2 => (com(AccountCommand::MintTokens(t, am(amount))), true),
        3 => (com(AccountCommand::UnmintTokens(t)), true),
        4 => (com(AccountCommand::LockTokenSupply(t)), true),
        5 => (com(AccountCommand::FreezeToken(t, IsTokenUnfreezable::Yes)), true),
        6 => (com(AccountCommand::UnfreezeToken(t)), true),
        7 => (com(AccountCommand::ChangeTokenAuthority(t, ANY)), true),
        8 => {
            // a text of the allowed length or one more, with one character that may not belong
            let len = [0, 5, 1024, 1025][sym::choose("length", 4)];
            let (uri, fine) = text(len, uri_char);
            (com(AccountCommand::ChangeTokenMetadataUri(t, uri)), r.uri_change && len <= 1024 && (fine || !r.uri_check))
        }
        9 => (com(AccountCommand::FillOrder(o, am(amount), ANY)), !r.orders_v1),
        10 => (com(AccountCommand::ConcludeOrder(o)), !r.orders_v1),
        11 => (TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(o, am(amount))), r.orders_v1 && amount > 0),
        12 => (TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(o)), r.orders_v1),
        _ => (TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(o)), r.orders_v1),
    };
    said(good);
    let t = tx(vec![(utxo(77), PLAIN), (input.clone(), PLAIN)], vec![coins(1)]);
    sym::assume(input != utxo(77));
    sym::check(ok(&cfg, at, &t) == good, "an input is allowed exactly when the rules in force at that height say so");
}

/// a text of letters with one character anything; whether that character belongs
fn text(len: usize, good: fn(u8) -> bool) -> (Vec<u8>, bool) {
    let mut t = vec![b'a'; len];
    if len == 0 {
        return (t, true);
    }
    let c = sym::u8("character");
    let at = [0, len / 2, len - 1][sym::choose("place", 3)];
    t[at] = c;
    (t, good(c))
}

fn letter(c: u8) -> bool {
    (c >= b'0' && c <= b'9') | (c >= b'a' && c <= b'z') | (c >= b'A' && c <= b'Z')
}

fn uri_char(c: u8) -> bool {
    // the reserved and unreserved characters of RFC 3986
    let mark = b"%:/?#[]@!$&'()*+,;=-._~".iter().fold(false, |a, m| a | (c == *m));
    letter(c) | mark
}

fn sizes(n: &'static str, of: &[usize]) -> usize {
    of[sym::choose(n, of.len())]
}

//@ prop=D05
//@ time=60
//@ covers=accepted|refused
//@ bounds=two issuances of either kind, or one
#[no_mangle]
pub extern "C" fn h_tx_issuances() {
    let cfg = plain();
    let mut outs = vec![coins(1)];
    let mut n = 0;
    for _ in 0..3 {
        match sym::choose("issue", 3) {
            2 => outs.push(coins(2)),
            k => {
                n += 1;
                outs.push(issue(k))
            }
        }
    }
    said(n <= 1);
    sym::check(ok(&cfg, H, &tx(vec![(utxo(1), PLAIN)], outs)) == (n <= 1), "a transaction issues one token at most");
}

//@ prop=D05
//@ time=120
//@ covers=accepted|refused
//@ bounds=a ticker of 0, 1, 12 or 13 characters, a location of 0, 5, 1024 or 1025 characters, one character of each anything; any decimals
#[no_mangle]
pub extern "C" fn h_token_issue() {
    let cfg = plain();
    let mut t = token();
    let mut good = true;
    if sym::flag("ticker or location") {
        let n = sizes("ticker", &[0, 1, 12, 13]);
        let (s, fine) = text(n, letter);
        t.token_ticker = s;
        good &= fine && n >= 1 && n <= 12;
    } else {
        let n = sizes("uri", &[0, 5, 1024, 1025]);
        let (s, fine) = text(n, uri_char);
        t.metadata_uri = s;
        good &= fine && n <= 1024;
    }
    t.number_of_decimals = sym::u8("decimals");
    good &= t.number_of_decimals <= 18;
    said(good);
    let token = TokenIssuance::V1(t);
    sym::check(check_tokens_issuance(&cfg, &token).is_ok() == good, "a token has a ticker of letters and digits, at most 18 decimals and a well formed location");
    let t = tx(vec![(utxo(1), PLAIN)], vec![coins(1), TxOutput::IssueFungibleToken(Box::new(token))]);
    sym::check(ok(&cfg, H, &t) == good, "a transaction issues only a well formed token");
}

//@ prop=D05
//@ time=120
//@ covers=accepted|refused
//@ bounds=one of the fields of a non-fungible token at its length limits with one character anything, or a media hash of 0, 3, 4, 32 or 33 bytes
#[no_mangle]
pub extern "C" fn h_nft_issue() {
    let cfg = plain();
    let mut m = nft();
    let good = match sym::choose("field", 7) {
        0 => {
            let n = sizes("length", &[0, 1, 12, 13]);
            let (s, fine) = text(n, letter);
            m.ticker = s;
            fine && n >= 1 && n <= 12
        }
        1 => {
            let n = sizes("length", &[0, 1, 10, 11]);
            let (s, fine) = text(n, letter);
            m.name = s;
            fine && n >= 1 && n <= 10
        }
        2 => {
            let n = sizes("length", &[0, 1, 100, 101]);
            let (s, fine) = text(n, letter);
            m.description = s;
            fine && n >= 1 && n <= 100
        }
        k @ 3..=5 => {
            let n = sizes("length", &[0, 5, 1024, 1025]);
            let (s, fine) = text(n, uri_char);
            let s = Some(s).into();
            match k {
                3 => m.icon_uri = s,
                4 => m.additional_metadata_uri = s,
                _ => m.media_uri = s,
            }
            fine && n <= 1024
        }
        _ => {
            let n = sizes("length", &[0, 3, 4, 32, 33]);
            m.media_hash = sym::vec("hash", n);
            n >= 4 && n <= 32
        }
    };
    said(good);
    let data = NftIssuanceV0 { metadata: m };
    sym::check(check_nft_issuance_data(&cfg, &data).is_ok() == good, "a non-fungible token is well formed in every field");
    let t = tx(vec![(utxo(1), PLAIN)], vec![TxOutput::IssueNft(tid(9), Box::new(NftIssuance::V0(data)), ANY)]);
    sym::check(ok(&cfg, H, &t) == good, "a transaction issues only a well formed non-fungible token");
}
