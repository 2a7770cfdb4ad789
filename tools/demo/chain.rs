//! The simulated chain: one in-process MultiversX VM (the real contract code runs in it)
//! whose clock, balances, external contracts and failure points the simulator controls.

use crate::stubs;
use multiversx_chain_vm::blockchain::state::{AccountData, BlockchainState};
use multiversx_chain_vm::host::context::{TxFunctionName, TxInput, TxLog, TxResult, TxTokenTransfer};
use multiversx_chain_vm::host::execution;
use multiversx_chain_vm::host::runtime::RuntimeInstanceCallLambdaDefault;
use multiversx_chain_vm::types::{VMAddress, VMCodeMetadata};
use multiversx_sc::contract_base::{CallableContract, CallableContractBuilder};
use multiversx_sc_scenario::executor::debug::ContractContainer;
use multiversx_sc_scenario::{scenario::run_vm::ScenarioVMRunner, DebugApi};
use num_bigint::BigUint;
use std::cell::RefCell;

pub type Addr = VMAddress;

/// Call-boundary seam. Every contract invocation made during a transaction passes here, so an
/// abort (out-of-gas / VM stop) can be injected at any cross-contract call, on entry or on exit.
#[derive(Default)]
pub struct Seam {
    pub n: u32,
    pub abort: Option<(u32, bool)>,
    pub fired: bool,
    pub trace: Vec<(u8, String)>,
    pub record: bool,
}

thread_local! {
    pub static SEAM: RefCell<Seam> = RefCell::new(Seam::default());
}

pub struct SeamContract {
    kind: u8,
    inner: Box<dyn CallableContract>,
}

impl CallableContract for SeamContract {
    fn call(&self, fn_name: &str) -> bool {
        let my = SEAM.with(|s| {
            let mut s = s.borrow_mut();
            s.n += 1;
            if s.record {
                let k = self.kind;
                s.trace.push((k, fn_name.to_string()));
            }
            s.n
        });
        let hit = |exit: bool| {
            SEAM.with(|s| {
                let mut s = s.borrow_mut();
                if s.abort == Some((my, exit)) {
                    s.fired = true;
                    true
                } else {
                    false
                }
            })
        };
        if hit(false) {
            std::panic::resume_unwind(Box::new("simulated out of gas".to_string()));
        }
        let r = self.inner.call(fn_name);
        if hit(true) {
            std::panic::resume_unwind(Box::new("simulated out of gas".to_string()));
        }
        r
    }
}

pub const K_CONTROLLER: u8 = 1;
pub const K_POOL: u8 = 2;
pub const K_AGG: u8 = 3;
pub const K_ACC: u8 = 4;
pub const K_SAFE: u8 = 5;
pub const K_ROUTER: u8 = 6;
pub const K_PAIR: u8 = 7;
pub const K_RATE: u8 = 8;
pub const K_FLASH: u8 = 9;

pub struct Chain {
    pub runner: ScenarioVMRunner,
    pub txs: u64,
    pub queries: u64,
    hash_ctr: u64,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub ok: bool,
    pub msg: String,
    pub values: Vec<Vec<u8>>,
    pub logs: Vec<TxLog>,
    pub trace: Vec<(u8, String)>,
    pub calls: u32,
    pub aborted: bool,
}

pub type Pay = (String, u64, BigUint);

pub fn addr_user(i: u8) -> Addr {
    let mut b = [0x55u8; 32];
    b[31] = i;
    // same shard for everybody
    b[30] = 0;
    VMAddress::from(b)
}
pub fn addr_sc(kind: u8, i: u8) -> Addr {
    let mut b = [0u8; 32];
    b[8] = 5;
    b[9] = 0;
    b[10] = kind;
    b[11] = i;
    for x in b.iter_mut().skip(12) {
        *x = 0x77;
    }
    b[31] = 0;
    VMAddress::from(b)
}

fn obj<B: CallableContractBuilder>(b: B, kind: u8) -> Box<dyn CallableContract> {
    Box::new(SeamContract { kind, inner: b.new_contract_obj::<DebugApi>() })
}

impl Chain {
    pub fn new() -> Self {
        let runner = ScenarioVMRunner::new();
        {
            let mut m = runner.contract_map_ref.lock();
            let mut reg = |name: &str, c: Box<dyn CallableContract>| {
                m.register_contract(name.as_bytes().to_vec(), ContractContainer::new(c, None, false));
            };
            reg("controller", obj(controller::ContractBuilder, K_CONTROLLER));
            reg("pool", obj(liquidity_layer::ContractBuilder, K_POOL));
            reg("agg", obj(price_aggregator::ContractBuilder, K_AGG));
            reg("acc", obj(stubs::acc::ContractBuilder, K_ACC));
            reg("safe", obj(stubs::safe::ContractBuilder, K_SAFE));
            reg("router", obj(stubs::router::ContractBuilder, K_ROUTER));
            reg("pair", obj(stubs::pair::ContractBuilder, K_PAIR));
            reg("rate", obj(stubs::rate::ContractBuilder, K_RATE));
            reg("flash", obj(stubs::flash::ContractBuilder, K_FLASH));
        }
        Chain { runner, txs: 0, queries: 0, hash_ctr: 0 }
    }

    pub fn st(&self) -> &BlockchainState {
        &self.runner.blockchain_mock.state
    }
    pub fn st_mut(&mut self) -> &mut BlockchainState {
        self.runner.blockchain_mock.state.mut_state()
    }
    pub fn snapshot(&self) -> BlockchainState {
        self.st().clone()
    }
    pub fn restore(&mut self, s: BlockchainState) {
        *self.st_mut() = s;
    }

    pub fn add_user(&mut self, a: &Addr) {
        let mut d = AccountData::new_empty(a.clone());
        d.egld_balance = BigUint::from(10u32).pow(24);
        self.st_mut().accounts.insert(a.clone(), d);
    }
    pub fn add_sc(&mut self, a: &Addr, code: &str, owner: &Addr) {
        let mut d = AccountData::new_empty(a.clone());
        d.contract_path = Some(code.as_bytes().to_vec());
        d.contract_owner = Some(owner.clone());
        d.code_metadata = VMCodeMetadata::all();
        self.st_mut().accounts.insert(a.clone(), d);
    }

    pub fn mint(&mut self, a: &Addr, tok: &str, amt: &BigUint) {
        let acc = self.st_mut().accounts.get_mut(a).unwrap();
        acc.esdt.increase_balance(tok.as_bytes().to_vec(), 0, amt, Default::default());
    }
    pub fn bal(&self, a: &Addr, tok: &str) -> BigUint {
        self.bal_n(a, tok, 0)
    }
    pub fn bal_n(&self, a: &Addr, tok: &str, nonce: u64) -> BigUint {
        match self.st().accounts.get(a) {
            Some(acc) => acc.esdt.get_esdt_balance(tok.as_bytes(), nonce),
            None => BigUint::default(),
        }
    }
    pub fn sget(&self, a: &Addr, key: &[u8]) -> Vec<u8> {
        self.st().accounts.get(a).and_then(|x| x.storage.get(key).cloned()).unwrap_or_default()
    }
    pub fn sset(&mut self, a: &Addr, key: &[u8], val: Vec<u8>) {
        let acc = self.st_mut().accounts.get_mut(a).unwrap();
        if val.is_empty() {
            acc.storage.remove(key);
        } else {
            acc.storage.insert(key.to_vec(), val);
        }
    }

    pub fn now(&self) -> u64 {
        self.st().current_block_info.block_timestamp
    }
    pub fn set_time(&mut self, ts: u64, round: u64) {
        let b = &mut self.st_mut().current_block_info;
        b.block_timestamp = ts;
        b.block_round = round;
        b.block_nonce = round;
    }

    fn out(&self, r: TxResult) -> Out {
        SEAM.with(|s| {
            let mut s = s.borrow_mut();
            Out {
                ok: r.result_status.is_success(),
                msg: r.result_message,
                values: r.result_values,
                logs: r.result_logs,
                trace: std::mem::take(&mut s.trace),
                calls: s.n,
                aborted: s.fired,
            }
        })
    }

    /// Executes one transaction; `abort` = stop the VM at the k-th contract invocation.
    pub fn call(
        &mut self,
        from: &Addr,
        to: &Addr,
        func: &str,
        args: Vec<Vec<u8>>,
        pays: &[Pay],
        abort: Option<(u32, bool)>,
    ) -> Out {
        self.txs += 1;
        self.hash_ctr += 1;
        let mut h = [0u8; 32];
        h[..8].copy_from_slice(&self.hash_ctr.to_be_bytes());
        self.st_mut().increase_account_nonce(from);
        let input = TxInput {
            from: from.clone(),
            to: to.clone(),
            esdt_values: pays
                .iter()
                .map(|(t, n, v)| TxTokenTransfer {
                    token_identifier: t.as_bytes().to_vec(),
                    nonce: *n,
                    value: v.clone(),
                })
                .collect(),
            func_name: TxFunctionName::from(func),
            args,
            gas_limit: u64::MAX / 2,
            tx_hash: h.into(),
            ..Default::default()
        };
        SEAM.with(|s| {
            *s.borrow_mut() = Seam { abort, record: true, ..Default::default() };
        });
        let rt = self.runner.create_debugger_runtime();
        let r = execution::commit_call_with_async_and_callback(
            input,
            &mut self.runner.blockchain_mock.state,
            &rt,
            RuntimeInstanceCallLambdaDefault,
        );
        self.out(r)
    }

    pub fn query(&mut self, to: &Addr, func: &str, args: Vec<Vec<u8>>) -> Out {
        self.queries += 1;
        let input = TxInput {
            from: to.clone(),
            to: to.clone(),
            func_name: TxFunctionName::from(func),
            args,
            gas_limit: u64::MAX / 2,
            ..Default::default()
        };
        SEAM.with(|s| *s.borrow_mut() = Seam::default());
        let rt = self.runner.create_debugger_runtime();
        let r = execution::execute_query(
            input,
            &mut self.runner.blockchain_mock.state,
            &rt,
            RuntimeInstanceCallLambdaDefault,
        );
        self.out(r)
    }
}
