BASE = ("Every path of the compiled real code within the stated bounds is executed symbolically and each assertion is discharged by an SMT solver "
        "(z3, with cvc5/z3-new as fallback) for all values of the inputs; counterexamples are replayed natively before they count. "
        "Trusts the executor (validated by native replay of solver models of finished paths), rustc and the solvers. ")

prop("C01", "256/512/128-bit unsigned integers compute exactly",
     "The fixed-width big unsigned integers used for targets, fees and difficulties agree with mathematical integer arithmetic: checked operations return the exact result or report overflow, shifts, bit counts, byte conversions and ordering are those of the number, and quotient times divisor plus a remainder smaller than the divisor gives back the dividend.",
     ["inputs"], "for all operand values (division and full products: operands of stated shapes)",
     "Tests use a few dozen constants and random values; carries between words need specific values to show.",
     ["common/src/uint/impls.rs", "common/src/uint/mod.rs", "common/src/uint/endian.rs"],
     [("word-wise carry propagation, long division", "common/src/uint/impls.rs")],
     BASE + "Division and 256-bit multiplication are decided for operands with stated sparse shapes only; the rest for all values.")

prop("C02", "Amount arithmetic never wraps or loses atoms",
     "Adding, subtracting, multiplying, dividing and summing amounts (signed and unsigned) and converting between the two gives the mathematically exact result or no result; nothing wraps, saturates or silently drops atoms.",
     ["inputs"], "for all amounts",
     "Tests sample constants and random amounts; overflow edges are hit by a handful of hand-picked values.",
     ["common/src/primitives/amount/mod.rs", "common/src/primitives/amount/signed.rs"],
     [("checked arithmetic on u128/i128", "common/src/primitives/amount/mod.rs")],
     BASE)

prop("C03", "Decimal text of amounts means exactly what it says",
     "Parsing a decimal amount accepts exactly the well-formed numbers and yields exactly the number written or an error, never a truncated one; printing an amount and parsing it back with the same decimals is the identity; rescaling, padding removal and decimal subtraction preserve the value. No text makes the parser panic.",
     ["inputs"], "for all texts up to the stated lengths and all amounts of the stated shapes",
     "Tests enumerate a few strings; malformed and extreme-length inputs are unbounded.",
     ["common/src/primitives/amount/decimal.rs", "common/src/primitives/amount/mod.rs", "common/src/primitives/amount/signed.rs"],
     [("DecimalAmount::from_str, with_decimals, without_padding", "common/src/primitives/amount/decimal.rs")],
     BASE + "Text lengths, digits and decimals are bounded as stated in the evidence.")

prop("C04", "Compact difficulty targets decode and encode faithfully",
     "Decoding a compact target yields mantissa*256^(exponent-3) exactly, and rejects negative and overflowing encodings; encoding a target and decoding it again yields the target with only its lowest bits beyond 24-bit precision cleared.",
     ["inputs"], "for all 2^32 encodings and all 256-bit targets of the stated shapes",
     "Tests use a table of Bitcoin examples.",
     ["common/src/primitives/compact.rs"],
     [("TryFrom<Compact> for Uint256 and From<Uint256> for Compact", "common/src/primitives/compact.rs")],
     BASE)

prop("C05", "Fractions are ordered by their value",
     "Comparing two fractions with non-zero denominators orders them exactly as the numbers they denote, for every supported integer width, without overflow in the intermediate products.",
     ["inputs"], "for all 64-bit fractions and 128/256-bit fractions of the stated shapes",
     "Tests compare random pairs; equal values and shared numerators practically never occur there.",
     ["common/src/primitives/rational.rs"],
     [("cross multiplication in 512 bits", "common/src/primitives/rational.rs")],
     BASE + "Wider products use the 512-bit multiplication decided by C01.")

prop("C06", "Per-mille ratios stay within range and round-trip as text",
     "A per-mille ratio can only hold 0..=1000; reading its printed percentage gives back the same ratio, and text denoting more than 100%, more than one decimal of a percent, or no number is refused.",
     ["inputs"], "for all 16-bit values and all texts of the stated length",
     "Tests list examples and draw random values.",
     ["common/src/primitives/per_thousand.rs"],
     [("PerThousand::new, from_decimal_str, Display", "common/src/primitives/per_thousand.rs")],
     BASE)

prop("C07", "Block heights, distances and times never wrap",
     "Arithmetic on block heights, height distances and timestamps gives the exact result or none; distance added back to a height restores it; ranges of heights enumerate exactly the heights between their ends.",
     ["inputs"], "for all 64-bit heights, distances and times",
     "Tests use a few constants around the extremes.",
     ["common/src/primitives/height.rs", "common/src/primitives/time.rs"],
     [("checked arithmetic", "common/src/primitives/height.rs"), ("checked arithmetic", "common/src/primitives/time.rs")],
     BASE + "Height plus distance beyond i64::MAX panics by a documented TODO and is excluded.")

prop("C08", "Semantic versions parse exactly and round-trip",
     "A version text is accepted exactly when it consists of three dot-separated decimal numbers within range (a leading plus sign on a number is tolerated), and then denotes those numbers; printing a version and parsing it back is the identity.",
     ["inputs"], "for all texts of the stated length, and versions of the stated size",
     "Tests list examples.",
     ["common/src/primitives/semver.rs"],
     [("SemVer::try_from / Display", "common/src/primitives/semver.rs")],
     BASE)

prop("A01", "Data deltas merge associatively and undo exactly",
     "Changes to a keyed record (create, modify, delete) collected in a delta compose: applying two deltas one after the other equals applying their merge, merging is associative, the undo of a merge or application restores exactly the previous state, and a change that does not match the current data (creating what exists, modifying or deleting what does not, or with another old value) is refused.",
     ["inputs", "histories"], "for all sequences of up to three changes with symbolic data on one and two keys",
     "Tests sample particular sequences; undo errors show for particular orders of create, delete and modify.",
     ["accounting/src/delta/delta_data_collection/mod.rs", "accounting/src/delta/combine.rs"],
     [("merge_delta_data_element, undo_merge_delta_data_element, apply", "accounting/src/delta/delta_data_collection/mod.rs"),
      ("combine_data_with_delta", "accounting/src/delta/combine.rs")],
     BASE + "Number of keys and changes bounded.")

prop("A02", "Balance deltas sum exactly and undo exactly",
     "Signed changes to unsigned balances collected per key sum exactly or fail on overflow, a key whose sum is zero is dropped, undoing a merged delta restores the previous collection, and combining a balance with a delta gives the exact non-negative result or an error.",
     ["inputs", "histories"], "for all amounts on up to three keys",
     "Tests use a few constants; overflow and cancellation to zero need particular values.",
     ["accounting/src/delta/delta_amount_collection.rs", "accounting/src/delta/combine.rs"],
     [("DeltaAmountCollection::merge_delta_amounts, add_unsigned, sub_unsigned", "accounting/src/delta/delta_amount_collection.rs")],
     BASE + "Number of keys bounded.")

prop("S01", "Script numbers round-trip and are minimal",
     "Encoding an integer as a script number and reading it back gives the same integer; reading accepts exactly the minimal encodings within the size limit and yields the number the bytes denote; the boolean reading of bytes is false exactly for zeros and negative zero.",
     ["inputs"], "for all 64-bit integers and all byte strings up to 9 bytes",
     "Tests list a dozen examples.",
     ["script/src/util.rs", "script/src/script.rs"],
     [("build_scriptint, read_scriptint, read_scriptbool", "script/src/util.rs")],
     BASE)

prop("S02", "Scripts parse into exactly the instructions their bytes encode",
     "Iterating over a script yields exactly the opcodes and pushed data its bytes encode, in order, or an error at a truncated (or, when enforced, non-minimal) push; what the builder pushes is read back unchanged and in minimal form; the standard-template predicates hold exactly for the template's bytes; appending a verify step fuses it with exactly the opcodes that have a verifying form.",
     ["inputs"], "for all scripts up to the stated lengths and pushes around every length-encoding boundary",
     "Tests parse a few scripts; length-encoding boundaries and truncated tails are many.",
     ["script/src/script.rs", "script/src/opcodes.rs"],
     [("Instructions iterator", "script/src/script.rs"), ("Builder", "script/src/script.rs")],
     BASE)

prop("S03", "Every script opcode has exactly its documented effect",
     "Each non-flow opcode applied to a stack gives exactly the documented stack or is refused when operands are missing, not numbers or out of range; hash opcodes push the named hash of the top item; CHECKSIG and CHECKMULTISIG succeed exactly when the signatures match keys in order.",
     ["inputs"], "for all stacks of the stated shapes",
     "Tests cover a fixed table of scripts; operand order and boundary cases per opcode are many.",
     ["script/src/interpreter.rs", "script/src/util.rs"],
     [("run_script_with_stack opcode match", "script/src/interpreter.rs")],
     BASE + "Signature checking is an uninterpreted relation supplied by the harness context.")

prop("S04", "Scripts execute with correct control flow and limits",
     "A whole script evaluates to what an independent reference machine gives: nested conditionals, the alternative stack, code separators, disabled and reserved opcodes, and size, depth and push limits behave as documented; a witness satisfies a lock script exactly when the lock leaves a single true value.",
     ["inputs"], "for all scripts of the stated lengths over the stated opcodes",
     "Interactions of nested conditionals with skipped and failing opcodes need many combinations.",
     ["script/src/interpreter.rs", "script/src/context.rs"],
     [("ExecStack, run_script", "script/src/interpreter.rs"), ("verify_witness_lock", "script/src/interpreter.rs")],
     BASE)

prop("L01", "Orders only change as their rules allow and every change can be undone",
     "Creating, filling, freezing and concluding an order are accepted exactly when the order's state allows them (no zero amounts, no duplicates, no fill of frozen orders or above what is asked, no payout of nothing) and move exactly the stated amounts, so balances never go negative and other orders are untouched. Undoing restores the exact previous state, and flushing cached changes into a parent or the store shows the same state.",
     ["inputs", "histories"], "for all order states with small amounts and sequences of up to two operations",
     "Tests follow chosen histories; the interaction of operation, version, remaining balances and stacked caches is large.",
     ["orders-accounting/src/cache.rs", "orders-accounting/src/price_calculation.rs", "orders-accounting/src/storage/db.rs"],
     [("OrdersAccountingCache operations and undo", "orders-accounting/src/cache.rs"), ("merge_with_delta", "orders-accounting/src/storage/db.rs")],
     BASE + "Amounts up to 15 atoms in histories.")

prop("L02", "An order pays out the exact whole part of its price",
     "Filling an order with some amount of the asked currency pays exactly the whole part of given times fill divided by asked, never more than the order holds, for small and very large amounts alike.",
     ["inputs"], "for all 8-bit amounts at three scales up to 2^120",
     "Rounding and overflow need particular values.",
     ["orders-accounting/src/price_calculation.rs"],
     [("calculate_filled_amount", "orders-accounting/src/price_calculation.rs")],
     BASE)

prop("L03", "Tokens only change as their rules allow and every change can be undone",
     "Issuing, minting, unminting, locking, freezing, unfreezing and changing the authority or metadata of a token are accepted exactly when its state allows them and change exactly that; the circulating supply never exceeds a fixed limit, never changes while the supply is locked or the token frozen, and a supply beyond the representable range is reported as an error by every reader. Undoing restores the exact previous state, other tokens are untouched, and flushing cached changes into a parent or the store shows the same state.",
     ["inputs", "histories"], "for all token states and 128-bit amounts and all sequences of two operations",
     "Tests follow chosen histories; supply kind, lock, freeze state, overflow and stacked caches interact.",
     ["tokens-accounting/src/cache.rs", "tokens-accounting/src/data.rs", "tokens-accounting/src/storage/db.rs"],
     [("TokensAccountingCache operations and undo", "tokens-accounting/src/cache.rs"), ("merge_with_delta", "tokens-accounting/src/storage/db.rs")],
     BASE)

prop("L04", "Staking pools and delegations keep exact balances and can be undone",
     "Creating, rewarding and decommissioning a pool and creating, funding, spending and deleting a delegation are accepted exactly when the state allows and change exactly the named balances, so that a delegation's balance equals its share in its pool and a balance below zero or beyond the representable range is reported as an error by every reader. Undoing an operation, or a merge of cached changes into a parent or the store, restores the exact previous state, and other pools are untouched.",
     ["inputs", "histories"], "for all states of a pool and a delegation with 128-bit amounts and one operation, and all sequences of two operations with 16-bit amounts",
     "Tests simulate random histories without reading every view after each step; boundary identifiers and amounts need particular values.",
     ["pos-accounting/src/pool/delta/operator_impls.rs", "pos-accounting/src/pool/delta/view_impl.rs", "pos-accounting/src/pool/storage/mod.rs"],
     [("PoSAccountingDelta operations and undo", "pos-accounting/src/pool/delta/operator_impls.rs"), ("merge_with_delta, undo_merge_with_delta", "pos-accounting/src/pool/storage/mod.rs")],
     BASE + "One pool and one delegation in motion.")

prop("D01", "Each output is spendable exactly once and blocks undo exactly",
     "A cache of outputs over a store, or over another cache, answers every lookup as a plain set of unspent outputs would: an output can be spent once, never while absent, and a flush makes the layer below hold exactly the same set, with the best block last set. Connecting a transaction or block reward spends exactly its inputs and adds exactly its spendable outputs, or is refused when an input is missing; the undo data then restores the previous set exactly, also across flushes.",
     ["inputs", "histories"], "for all sequences of the bounded length over two outputs with any amount and height, and every kind of output and input",
     "The flags of a cached entry interact across layers; a mistake shows only after a particular spend, re-add and flush sequence.",
     ["utxo/src/cache.rs", "utxo/src/undo.rs", "utxo/src/storage/view_impls.rs", "utxo/src/utxo_entry.rs"],
     [("UtxosCache operations and batch_write", "utxo/src/cache.rs"), ("UtxosDB::batch_write", "utxo/src/storage/view_impls.rs"), ("UtxosBlockUndo", "utxo/src/undo.rs")],
     BASE + "One level of two stacked caches over an in-memory store; output ids are concrete, amounts and heights symbolic.")

prop("D02", "No transaction creates money or frees coins early",
     "A transaction is in balance exactly when, for every token, its outputs do not exceed its inputs, and for every number of blocks the coins it puts out under at most that lock do not exceed those it takes in that are at least as free, counting a pool's balance, delegation withdrawals, mints and order payouts as inputs and burns, stakes, orders, issuances and command fees as spent. The fee is exactly the coins taken in and not put out, block fees are the exact sum, a block reward is at most fees plus subsidy, and an amount that overflows, a withdrawal beyond a balance, or an output that is missing or not spendable is refused.",
     ["inputs"], "for all amounts below 2^122 and all block-count locks in transactions of up to four inputs and four outputs of every kind",
     "Each kind of input and output has its own accounting; a rule that leaks value shows only for one combination of kinds, locks and amounts.",
     ["chainstate/constraints-value-accumulator/src/constraints_accumulator.rs", "chainstate/constraints-value-accumulator/src/accumulated_fee.rs"],
     [("ConstrainedValueAccumulator::from_inputs, from_outputs, satisfy_with", "chainstate/constraints-value-accumulator/src/constraints_accumulator.rs"), ("AccumulatedFee", "chainstate/constraints-value-accumulator/src/accumulated_fee.rs")],
     BASE + "Published fee amounts are read from the chain configuration.")

prop("D03", "Only its owner spends an output, and not before its locks open",
     "Spending an output, account or order takes exactly the signature of the destination its kind names (a stake: the decommission key in a transaction, the staker in a block reward; a hashed contract: the secret and the spend key, or the lock and the refund key), and outputs that are not spendable never are. A time lock opens exactly when the height or time it names is reached, for every value of the lock, and a script holds exactly when every threshold is met and each claimed condition holds. A check of locks or signatures alone asks for exactly that part.",
     ["inputs"], "for all 64-bit locks, heights and times and every kind of input, in transactions and block rewards",
     "A lock is an arbitrary number from the chain, at the edges of the arithmetic; each kind of input has a rule of its own in four translations.",
     ["mintscript/src/translate.rs", "mintscript/src/checker/timelock.rs", "mintscript/src/script/verify.rs", "mintscript/src/script/mod.rs", "chainstate/tx-verifier/src/transaction_verifier/timelock_check.rs"],
     [("TranslateInput", "mintscript/src/translate.rs"), ("StandardTimelockChecker", "mintscript/src/checker/timelock.rs"), ("WitnessScript::verify", "mintscript/src/script/verify.rs"), ("check_timelock, check_output_maturity_setting", "chainstate/tx-verifier/src/transaction_verifier/timelock_check.rs")],
     BASE + "Signature verification itself is C code (secp256k1) and is not encoded; the property is about which signature is asked for.")

prop("D04", "A staking reward is split exactly and can be taken back",
     "The parts of a block reward paid to the staker and to the delegations of the pool add up to the reward exactly. The staker gets the pool's cost and margin (and, under the newer rule, the share of the pool's own stake), every delegation the whole part of its share of the rest by its balance, and what rounding leaves over goes to the staker; no other pool or delegation changes, and undoing restores every balance.",
     ["inputs"], "for rewards and costs of 16 to 125 bits, margins and stakes of the stated values, up to two delegations",
     "A lost or doubled atom shows only for particular remainders of reward, margin and balances.",
     ["chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs"],
     [("distribute_pos_reward", "chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs")],
     BASE + "Stakes and delegation balances are enumerated; rewards and costs are symbolic.")

prop("D05", "A transaction is well formed under the rules of its height",
     "A transaction is accepted for checking exactly if it has inputs and spends none twice, is no larger than a block may hold, keeps its data within the limits, uses only the kinds of values, inputs and outputs that the rules of its height allow, and issues at most one token. A token is issued exactly if its ticker, decimals, location and, for a non-fungible one, its fields and media hash are within their limits and alphabets.",
     ["inputs"], "for all heights and activation heights, all characters of the texts and the stated kinds and lengths",
     "Each rule depends on height, kind of value and kind of output together; tests exercise few combinations.",
     ["chainstate/tx-verifier/src/transaction_verifier/check_transaction.rs", "chainstate/tx-verifier/src/transaction_verifier/tokens_check/mod.rs", "chainstate/tx-verifier/src/transaction_verifier/tokens_check/check_utils.rs"],
     [("check_transaction", "chainstate/tx-verifier/src/transaction_verifier/check_transaction.rs"), ("check_tokens_issuance, check_nft_issuance_data", "chainstate/tx-verifier/src/transaction_verifier/tokens_check/mod.rs")],
     BASE)

prop("D06", "Connecting a transaction takes full effect once and can be taken back",
     "A transaction connects exactly if its inputs exist, are open and owned, its nonce is the next and the rules of the pool, token or order it acts on allow it; then outputs, account nonces, pools, tokens and orders change by exactly what it says. The result is the same whether changes are kept in one layer, in a layer above another, or written out in between. Disconnecting it, at once or later, restores everything, and is refused while a transaction depends on it.",
     ["inputs", "history"], "for all stored states (balances, nonces, supplies, flags) under the listed transactions and pairs of them",
     "Tests compare a few states before and after; effects and undo data spread over six caches that must agree for every state.",
     ["chainstate/tx-verifier/src/transaction_verifier/mod.rs", "chainstate/tx-verifier/src/transaction_verifier/hierarchy.rs", "chainstate/tx-verifier/src/transaction_verifier/flush.rs", "chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs", "chainstate/tx-verifier/src/transaction_verifier/utxos_undo_cache/mod.rs", "chainstate/tx-verifier/src/transaction_verifier/accounting_undo_cache/mod.rs", "chainstate/tx-verifier/src/transaction_verifier/pos_accounting_delta_adapter.rs", "chainstate/tx-verifier/src/transaction_verifier/cached_operation.rs", "chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs"],
     [("TransactionVerifier::{connect_transaction, disconnect_transaction, can_disconnect_transaction, connect_checked_block_reward}", "chainstate/tx-verifier/src/transaction_verifier/mod.rs"), ("batch_write", "chainstate/tx-verifier/src/transaction_verifier/hierarchy.rs"), ("flush_to_storage", "chainstate/tx-verifier/src/transaction_verifier/flush.rs")],
     BASE + "Mixing connects and disconnects of different layers in one child verifier is not claimed.")

prop("G01", "Coins are issued exactly as the emission schedule says",
     "At every height the main network's supply is the premine plus the published yearly block subsidies, each block's subsidy is its year's, and the supply never exceeds the published final supply. For any other piecewise schedule the supply at a height is the sum of the subsidies of all blocks up to it.",
     ["inputs"], "for all 64-bit block heights",
     "Period boundaries are single heights; tests sample heights.",
     ["common/src/chain/config/emission_schedule.rs"],
     [("EmissionScheduleTabular::schedule, mainnet_schedule_table", "common/src/chain/config/emission_schedule.rs")],
     BASE)
prop("G02", "The staking difficulty follows block times within its limits",
     "The target a block staked at some height must have is the previous target scaled by the average time between the last blocks over the planned spacing, changed by no more than the configured fraction per block and never above the limit; before enough blocks exist after an upgrade the target stays, and at the upgrade it is the configured initial one.",
     ["inputs"], "for all block times, targets, limits and fractions of the stated sizes",
     "Tests use a handful of targets and times; clamping and rounding interact.",
     ["consensus/src/pos/target.rs"],
     [("calculate_new_target", "consensus/src/pos/target.rs"), ("calculate_average_block_time", "consensus/src/pos/target.rs")],
     BASE + "Exactness of wide integers is decided by C01.")

prop("G03", "The mining difficulty is adjusted every 2016 blocks and gates blocks",
     "Every 2016 blocks the target is the old one times the time the interval took over two weeks, that ratio being kept between a quarter and four and the target below the limit; in between it does not change, except for the relief after twenty idle minutes on test networks. A mined block is accepted exactly when its hash, read as a number, is not above the target it declares.",
     ["inputs"], "for all heights, hashes, times and targets of the stated sizes",
     "Tests replay a few historic adjustments of another network.",
     ["consensus/src/pow/work.rs", "consensus/src/pow/helpers.rs"],
     [("calculate_work_required, check_proof_of_work", "consensus/src/pow/work.rs"), ("calculate_new_target", "consensus/src/pow/helpers.rs")],
     BASE + "An interval whose last block is older than its first is excluded (a documented TODO there).")

prop("G04", "A stake wins a block exactly by its weight",
     "A staking attempt wins exactly when its hash is at most the target times the pool's effective balance; the effective balance is the balance in the first protocol version, and in the second the documented function of pledge and balance, capped at a thousandth of the final supply and rounded down once per division. A pledge above the balance, a balance reaching the supply or a missing supply is refused.",
     ["inputs"], "for all hashes and targets at several balances, and all small pledges and balances at three scales",
     "Rounding, saturation and the cap need particular values; tests compare shapes of curves.",
     ["consensus/src/pos/hash_check.rs", "consensus/src/pos/effective_pool_balance.rs"],
     [("check_pos_hash", "consensus/src/pos/hash_check.rs"), ("effective_pool_balance_impl", "consensus/src/pos/effective_pool_balance.rs")],
     BASE + "Exactness of wide integers is decided by C01.")

prop("T01", "Storage transactions are isolated and all or nothing",
     "Within a transaction on the in-memory store a read sees the last write to its key in that transaction or else what was committed before; iteration over a prefix or from a key on yields every live pair of its range once, in ascending key order, with its current value. Committing makes all changes of a transaction visible through every handle, dropping it makes none visible, and separate maps never affect each other.",
     ["inputs", "histories"], "for all one- and two-byte keys, prefixes and sequences of two transactions of two changes",
     "Merging pending changes with stored keys goes wrong only for particular orders of keys, overwrites and deletions.",
     ["storage/core/src/adaptor/locking.rs", "storage/core/src/util.rs", "storage/inmemory/src/lib.rs"],
     [("TxRw, prefix and range iteration", "storage/core/src/adaptor/locking.rs"), ("filter_prefix, MapPrefixIter", "storage/core/src/util.rs"), ("StorageMaps", "storage/inmemory/src/lib.rs")],
     BASE + "One transaction at a time; waiting for locks, and the on-disk backends (C code), are outside.")

prop("K01", "Key derivation paths and child numbers are read and written exactly",
     "A child number is a 31-bit index with a hardened mark in its top bit: decimal text without leading zeros and with an optional mark (' or h) denotes exactly it, out-of-range and malformed texts are refused, and printing and encoding read back to the same number. A path is an m followed by children behind slashes, its binary form is its length and its children, and a key derives another exactly when its path is a proper beginning of the other's, by the remaining children in order.",
     ["inputs"], "for all 32-bit child numbers, all ASCII texts up to 7 characters and all paths of up to three children",
     "Parsing has many corner texts and a boundary at 2^31; tests list a few.",
     ["crypto/src/key/hdkd/u31.rs", "crypto/src/key/hdkd/child_number.rs", "crypto/src/key/hdkd/derivation_path.rs", "crypto/src/key/hdkd/derivable.rs"],
     [("ChildNumber", "crypto/src/key/hdkd/child_number.rs"), ("DerivationPath", "crypto/src/key/hdkd/derivation_path.rs"), ("derive_absolute_path", "crypto/src/key/hdkd/derivable.rs")],
     BASE + "The elliptic-curve derivation of one child is outside (C code, HMAC).")

prop("U01", "Walking a dependency graph visits each node once and in dependency order",
     "Walking an acyclic graph depth first from one or several roots visits every node reachable from a root exactly once and no other, and each node only after all nodes it points to, whatever order the roots and edges are given in and even if roots repeat or lead to each other.",
     ["inputs"], "for all graphs of four or five nodes",
     "The order depends on the shape of the graph; tests use two shapes.",
     ["utils/src/graph_traversals.rs"],
     [("dag_depth_postorder, dag_depth_postorder_multiroot", "utils/src/graph_traversals.rs")],
     BASE)

prop("B01", "Addresses are read back exactly and mistyped ones are refused",
     "Data written as a text address under a prefix is read back as the same data and prefix; an address with any single character replaced is refused, as is a prefix of unprintable characters or of mixed case.",
     ["inputs"], "for all replaced characters and positions in addresses of 1 and 5 bytes, and data up to 33 bytes",
     "An error-detecting code promises to catch every single typo, not the sampled ones.",
     ["common/src/primitives/bech32_encoding/mod.rs"],
     [("bech32m_encode, bech32m_decode", "common/src/primitives/bech32_encoding/mod.rs")],
     BASE + "For data and prefixes the solver enumerates values (the checksum over symbolic data is out of reach).")

prop("N01", "Network addresses are read and written exactly",
     "An IP address, with or without a port, is written as the standard form of its kind and read back to the same address and port; a port is a decimal number up to 65535 and anything else behind the last colon makes the text refused, never misread. A text is an IP address exactly when it is written as one, a domain name is kept as written and has no delimiters, and resolving several names gives their addresses in order or fails when any of them fails.",
     ["inputs"], "for all port texts up to 4 characters (and behind prefixes), IP addresses with two arbitrary bytes, names with three arbitrary characters",
     "Colons in IPv6 addresses, brackets, signs and leading zeros make many corner texts.",
     ["utils/networking/src/network_address.rs", "utils/networking/src/ip_or_socket_address.rs", "utils/networking/src/resolvable_name.rs"],
     [("NetworkAddress, NetworkAddressWithOptionalPort, NetworkAddressWithPort", "utils/networking/src/network_address.rs"), ("IpOrSocketAddress", "utils/networking/src/ip_or_socket_address.rs"), ("resolve_all", "utils/networking/src/resolvable_name.rs")],
     BASE)

prop("N02", "Every subscriber gets every broadcast since it subscribed",
     "A subscriber to a broadcaster receives exactly the messages broadcast after it subscribed, each once and in order, whether or not other subscribers have left meanwhile; the broadcaster counts only subscribers that remain, and once it is gone a subscriber sees the end after its last message.",
     ["histories"], "for all sequences of four steps with up to two subscribers",
     "Who has left in which order matters; tests follow three histories.",
     ["utils/networking/src/broadcaster.rs"],
     [("Broadcaster::broadcast, subscribe", "utils/networking/src/broadcaster.rs")],
     BASE + "Steps are atomic; real concurrency inside the channels is outside.")

prop("R01", "Texts and bytes pass through the RPC types unchanged",
     "Bytes are written as lower-case hexadecimal, and exactly texts of pairs of hexadecimal digits in either case are read, to the bytes they denote. A string parameter is its bare text, or an object with its text or its hexadecimal bytes, which must agree if both are given; bytes that are no UTF-8 text are kept and given back, not altered.",
     ["inputs"], "for all texts of up to 4 characters and all strings of up to 4 bytes",
     "Texts that are almost valid are many; tests use a handful.",
     ["rpc/types/src/string.rs"],
     [("RpcHexString, RpcString", "rpc/types/src/string.rs")],
     BASE)

prop("X01", "Slices compare equal exactly when they hold the same elements",
     "The plain and the constant-time comparison of two slices both say equal exactly when the slices have the same length and the same elements, also for empty slices and for slices that are repetitions of one another.",
     ["inputs"], "for all slices of up to five elements, and long repeating ones with one changed byte",
     "A comparison that folds indices and lengths goes wrong for special lengths only.",
     ["crypto/src/util/eq.rs"],
     [("SliceEqualityCheckMethod", "crypto/src/util/eq.rs")],
     BASE)

prop("X02", "Hashing in pieces gives the hash of the whole",
     "For each supported algorithm the hash of a message is the digest of that algorithm (the 32-byte Blake2b being the first half of the 64-byte one), whether it is computed at once or written to a stream in any pieces, empty ones included. A stream that was reset or has given its digest starts afresh, independently of what was written before.",
     ["inputs", "histories"], "for messages up to 257 bytes with three arbitrary bytes, in three pieces",
     "Buffers at block edges and state left behind by an earlier use matter; tests use one short message.",
     ["crypto/src/hash/mod.rs", "crypto/src/hash/internal.rs"],
     [("Hasher, StreamHasher", "crypto/src/hash/mod.rs"), ("InternalStreamHasher", "crypto/src/hash/internal.rs")],
     BASE + "SHA-1 runs on fixed messages; that the external digest crates implement their standards is assumed.")

prop("X03", "Encrypted data opens to the message, and only untouched",
     "Decrypting an encrypted message with the same key and associated data gives back the message; the sealed text is a 24-byte nonce taken afresh from the generator, followed by as many bytes as the message and a 16-byte tag. A text altered in any bit, with other associated data, another key, or too short for its nonce or tag is refused, as is a raw key that is not 32 bytes long.",
     ["inputs"], "for messages up to 130 bytes with four arbitrary bytes, and every single flipped bit of texts up to 110 bytes",
     "Positions at block edges, short texts and absent associated data are many; tests use random ones.",
     ["crypto/src/symkey/mod.rs", "crypto/src/symkey/chacha20poly1305/mod.rs"],
     [("SymmetricKey", "crypto/src/symkey/mod.rs"), ("Chacha20poly1305Key", "crypto/src/symkey/chacha20poly1305/mod.rs")],
     BASE + "Refusal is decided for enumerated changes of fixed texts; the strength of the cipher is outside.")

prop("X04", "VRF outputs verify for their key and transcript alone",
     "A transcript binds exactly the labelled numbers and bytes attached to it, in order, with or without a generator. A VRF output verifies for the public key of its signer and the transcript it was made from and for no other, its value depends only on key and transcript, and a public key's plain child is the public key of the private key's child while hardened children need the private key.",
     ["inputs"], "for all transcripts of two attachments with arbitrary numbers and up to three bytes; curve arithmetic on enumerated keys, transcripts and child numbers",
     "Truncated numbers or skipped attachments show only for particular values.",
     ["crypto/src/vrf/mod.rs", "crypto/src/vrf/transcript/no_rng.rs", "crypto/src/vrf/transcript/with_rng.rs", "crypto/src/vrf/schnorrkel/mod.rs"],
     [("VRFTranscript", "crypto/src/vrf/transcript/no_rng.rs"), ("VRFTranscriptWithRng", "crypto/src/vrf/transcript/with_rng.rs"), ("VRFPrivateKey, VRFPublicKey, ExtendedVRFPrivateKey", "crypto/src/vrf/mod.rs")],
     BASE + "The curve arithmetic runs on enumerated values; its hardness is outside.")

prop("X05", "A password is accepted by its own record alone",
     "A record made from a password has a fresh salt and a hash of the lengths asked for, accepts exactly that password under either comparison, and stripped of its hash still gives back the same key for that password and another key for any other. A record changed in its hash, salt or cost parameters, or cut short, does not accept the password.",
     ["inputs"], "for all passwords of up to three bytes and any one changed byte of the record",
     "Accepting a prefix or ignoring a parameter shows only for crafted records.",
     ["crypto/src/kdf/mod.rs", "crypto/src/kdf/argon2.rs"],
     [("hash_password, verify_password, hash_from_challenge", "crypto/src/kdf/mod.rs"), ("argon2id_hash", "crypto/src/kdf/argon2.rs")],
     BASE + "Argon2 itself is a stand-in that lays out its inputs (assumed to be free of collisions).")
