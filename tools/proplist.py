prop("C01", "Block admission is exact and keeps block totals within limits",
 "A transaction is admitted into a block exactly when its gas limit, encoded size and (unless it is a deposit) data-availability size fit both the per-transaction limits and what is left of the block's, and no execution-time total (data, key-value updates, compute gas, state growth) of the block has already reached its limit. A rejection names a limit that really is exceeded, with the true numbers. Whatever sequence of transactions is admitted and recorded, block totals are the sums of what each transaction reported, and gas, size and DA totals never exceed their limits.",
 ["inputs", "histories", "configurations"], "all limits, all usage totals, all transactions, all admission histories",
 "The tests use a handful of limits far from 2^64 and short histories; the block executor tests sample a few transactions.",
 ["block/limit.rs", "block/result.rs"], [("pre_execution_check, post_execution_check, post_execution_update_raw", "block/limit.rs")],
 "One inductive step over arbitrary 64-bit limits, totals and transaction attributes, so histories of any length; totals above 2^64 are outside.",
 ["BlockLimiter"])
prop("C02", "Storage gas is priced from the bucket, and the price is fixed within a block",
 "The extra gas for a new storage slot, account or contract is exactly the specification's base price scaled by the capacity of the SALT bucket the slot or account falls in: MINI_REX charges 2,000,000 x capacity/256 for all three; REX and later charge (capacity/256 - 1) x 20,000 / 25,000 / 32,000. Within one block every query of a bucket sees the same capacity, a new block (however it is set) sees the new capacities, the reported accessed buckets are exactly those looked up in this block, and a failed lookup surfaces as the error it was.",
 ["inputs", "histories", "configurations"], "all bucket capacities, keys, specifications; all orders of queries and block changes",
 "Tests use two or three capacities and never a second block on one context.",
 ["external/gas.rs", "evm/context.rs"], [("DynamicGasCost", "external/gas.rs"), ("set_block, with_block", "evm/context.rs")],
 "Capacities 256..2^24 slots symbolic, two buckets, all specifications, queries in sequence plus a block change.",
 ["DynamicGasCost", "MegaContext"])
prop("C03", "A block runs under the newest active hardfork, with that hardfork's rules and limits",
 "For every fork configuration and timestamp, the specification chosen is that of the newest active hardfork (EQUIVALENCE when none), the per-transaction resource limits are the ones that specification defines unless explicitly overridden, configuring fork activations is remembered faithfully, specification names round-trip, specifications are ordered by activation, and limit structures keep every value when converted between their forms.",
 ["configurations", "inputs"], "all activation assignments for all forks, all timestamps, all limit values",
 "Tests check the hard-coded network configurations only.",
 ["block/hardfork.rs", "evm/spec.rs", "evm/limit.rs", "block/limit.rs"], [("MegaHardforks::spec_id, hardfork", "block/hardfork.rs"), ("EvmTxRuntimeLimits::from_spec", "evm/limit.rs")],
 "Fully symbolic activation conditions, timestamps and limits; configuration histories of up to 3 insertions.",
 ["MegaHardforks", "MegaSpecId", "EvmTxRuntimeLimits", "BlockLimits"])
prop("C04", "SSTORE charges the slot's storage gas and records what it writes, once",
 "Writing a storage slot costs exactly what mainnet charges plus, only when a slot that was zero at the start of the transaction and is zero now becomes non-zero, the bucket-priced storage gas. Across any sequence of writes to a slot, data size (40 bytes) and key-value updates (1) count the slot while its value differs from the transaction's original value and not otherwise; net state growth counts it exactly while it is newly non-zero; compute gas counts the mainnet cost without the storage gas. Exceeding any limit, or lacking the gas, halts before the next instruction, and the value stored is the value written.",
 ["inputs", "histories", "configurations"], "all original, current and written values, gas amounts, bucket capacities and limits, over sequences of writes",
 "The tests try a dozen value combinations with one capacity; the original/present/new case split times gas times limits is not sampled.",
 ["evm/instructions.rs", "limit/limit.rs", "limit/data_size.rs", "limit/kv_update.rs", "limit/state_growth.rs"], [("additional_limit_ext::sstore, compute_gas_ext::sstore", "evm/instructions.rs"), ("AdditionalLimit::on_sstore", "limit/limit.rs")],
 "Two consecutive writes to one slot, any values, any gas below 2^36, capacities 256..2^18 slots; EVM stack capped at 24 words in the encoding.",
 ["instruction table of MegaEvm", "AdditionalLimit::get_usage"])
prop("C05", "LOG charges storage gas per topic and byte and records its data",
 "LOG0..LOG4 cost exactly what mainnet charges plus 10x the mainnet topic and data gas as storage gas; data size grows by 32 bytes per topic plus the logged bytes and compute gas by the mainnet cost alone; the log emitted is the mainnet one; lacking gas, exceeding a limit or running in a static context halts and leaves no partial record.",
 ["inputs", "configurations"], "all lengths, offsets, gas amounts, limits; all topic counts",
 "Tests use one or two lengths and ample gas.",
 ["evm/instructions.rs", "limit/data_size.rs"], [("storage_gas_ext::log, additional_limit_ext::log", "evm/instructions.rs"), ("AdditionalLimit::on_log", "limit/limit.rs")],
 "Logs of up to a few bytes of any content with 0..4 topics, plus any absurd length; any gas below 2^36, any limits.",
 ["instruction table of MegaEvm", "AdditionalLimit::get_usage"])
prop("C06", "CALL-family opcodes forward at most 98/100 of the gas and price new accounts",
 "CALL, CALLCODE, DELEGATECALL and STATICCALL forward min(requested, 98/100 of what remains after the call's own costs) plus the 2,300 stipend when value is sent (mainnet's 63/64 where the specification has not changed the opcode); a value transfer to an empty account additionally pays the bucket-priced new-account storage gas; compute gas records the call's own cost without what is handed to the child or the stipend; everything else (target, value, input, memory) is as on mainnet; the parent's gas is reduced by exactly cost + forwarded gas.",
 ["inputs", "configurations"], "all gas amounts and requests, values, warm/cold and empty/non-empty targets, capacities, limits, specifications",
 "Forwarding is checked by the tests for two gas amounts of CALL; CALLCODE/DELEGATECALL/STATICCALL are hardly touched.",
 ["evm/instructions.rs"], [("forward_gas_ext, storage_gas_ext::call, compute_gas_ext", "evm/instructions.rs")],
 "One call instruction, any gas and request below 2^36, target empty/funded/cold/warm, capacities up to 2^18, all four opcodes in MINI_REX and REX4 rules.",
 ["instruction table of MegaEvm", "InterpreterAction"])
prop("C07", "CREATE and CREATE2 price the new contract and forward at most 98/100 of the gas",
 "A contract creation costs exactly mainnet's price plus the storage gas of the bucket of the address that is really created (for CREATE2 the address derived from salt and the very init code that is run, wherever it lies in or beyond memory); the child receives 98/100 of the remaining gas; compute gas records the creation's own cost only; init code over the limit, absurd offsets or too little gas halt as on mainnet without lookups; value, scheme and init code handed on are the operands.",
 ["inputs", "configurations"], "all gas amounts, salts, values, offsets and init code contents, nonces, capacities, limits",
 "Tests create from one or two fixed init codes inside memory; the metering code's own reading of memory is never pushed past its end.",
 ["evm/instructions.rs", "evm/host.rs"], [("storage_gas_ext::create, forward_gas_ext::create", "evm/instructions.rs")],
 "Init code of 0..4 bytes of any content at, across or beyond the end of memory; any gas below 2^36; capacities up to 2^18; the hash is a stand-in in the encoding and real in replays.",
 ["instruction table of MegaEvm", "SaltEnv lookups"])
prop("C08", "Reading volatile data restricts the compute gas still available, and nothing else",
 "Whenever a transaction reads block environment data, the beneficiary's account or (REX3 on, unless the system account sent the transaction) oracle storage, its compute gas limit drops at once to the most restrictive applicable detention limit - never up, whatever the order of accesses, and not for reads of anything else; the access record names exactly the data read; a new transaction starts unrestricted. The value read and its gas are mainnet's, except that oracle storage reads return the oracle service's value when it has one and always cost the cold price.",
 ["inputs", "histories", "configurations"], "all orders of accesses, detention limits, block environments, storage values, senders",
 "Tests run a few bytecodes with the default limits; combinations and orders of accesses and non-default limits are not sampled.",
 ["access/tracker.rs", "access/volatile.rs", "evm/host.rs", "evm/instructions.rs"], [("VolatileDataAccessTracker", "access/tracker.rs"), ("Host for MegaContext", "evm/host.rs"), ("volatile_data_ext", "evm/instructions.rs")],
 "Marking histories of 4 steps and a reset; opcode sequences of up to 4 volatile reads with any block environment and limits; single oracle reads in all relevant specifications.",
 ["VolatileDataAccessTracker", "instruction table of MegaEvm", "AdditionalLimit::compute_gas_limit"])
prop("C09", "An opcode without special metering does what it does on mainnet and is counted as compute gas",
 "Every opcode the specification does not change has mainnet's effect, gas, refund, failure and control flow; from MINI_REX on exactly its gas is added to the transaction's compute gas and to nothing else, and the frame stops as out of gas when, and only when, that exceeds the compute gas limit.",
 ["inputs", "configurations"], "all opcodes, operands, gas amounts and compute gas limits, in every specification's table",
 "Over a hundred wrapped opcodes in a hand-written table; the tests execute a fraction of them and compare hardly any with mainnet.",
 ["evm/instructions.rs"], [("compute_gas_ext, mini_rex::instruction_table", "evm/instructions.rs")],
 "Every ordinary opcode once in the MINI_REX table, most in REX4's (REX, REX2 and all pushes in the thorough run), side by side with mainnet's; symbolic operands except for multiplication, division, shifts and memory offsets; ADD, MSTORE and RETURN with any gas and limit.",
 ["instruction table of MegaEvm"])
