//! Stand-ins for the contracts the protocol talks to but does not own (DEX pairs, safe-price
//! view, swap router, liquid-staking contracts, revenue accumulator, flash borrowers).
//! Every answer they give comes from storage the simulator writes or from the transaction's own
//! arguments, so a run fully decides them.

/// Programmable counterparty: runs the action list it is handed as its first argument.
/// kind 0 = send tokens to the caller, 1 = call a contract, 2 = fail.
pub mod router {
    multiversx_sc::imports!();
    multiversx_sc::derive_imports!();

    #[type_abi]
    #[derive(TopEncode, TopDecode, NestedEncode, NestedDecode, Clone, ManagedVecItem)]
    pub struct Act<M: ManagedTypeApi> {
        pub kind: u8,
        pub to: ManagedBuffer<M>,
        pub func: ManagedBuffer<M>,
        pub pays: ManagedVec<M, EsdtTokenPayment<M>>,
        pub args: ManagedVec<M, ManagedBuffer<M>>,
    }

    #[multiversx_sc::contract]
    pub trait Router {
        #[init]
        fn init(&self) {}

        fn run(&self, acts: ManagedVec<Act<Self::Api>>) {
            let caller = self.blockchain().get_caller();
            for act in acts.iter() {
                match act.kind {
                    0 => {
                        for p in act.pays.iter() {
                            self.tx()
                                .to(&caller)
                                .payment(EsdtTokenPayment::new(
                                    p.token_identifier.clone(),
                                    p.token_nonce,
                                    p.amount.clone(),
                                ))
                                .transfer();
                        }
                    }
                    1 => {
                        let to = ManagedAddress::try_from(act.to.clone()).unwrap_or_else(|_| sc_panic!("bad addr"));
                        let mut args = ManagedArgBuffer::new();
                        for a in act.args.iter() {
                            args.push_arg_raw(a.clone());
                        }
                        self.tx()
                            .to(&to)
                            .raw_call(act.func.clone())
                            .arguments_raw(args)
                            .payment(&act.pays)
                            .sync_call();
                    }
                    _ => sc_panic!("counterparty refused"),
                }
            }
        }

        #[payable]
        #[endpoint]
        fn xo(&self, acts: ManagedVec<Act<Self::Api>>, _rest: MultiValueEncoded<ManagedBuffer>) {
            self.run(acts);
        }
    }
}

pub mod flash {
    multiversx_sc::imports!();
    use super::router::Act;

    #[multiversx_sc::contract]
    pub trait Flash {
        #[init]
        fn init(&self) {}

        #[payable]
        #[endpoint]
        fn go(&self, acts: ManagedVec<Act<Self::Api>>, _rest: MultiValueEncoded<ManagedBuffer>) {
            let caller = self.blockchain().get_caller();
            for act in acts.iter() {
                match act.kind {
                    0 => {
                        self.tx().to(&caller).payment(&act.pays).transfer();
                    }
                    1 => {
                        let to = ManagedAddress::try_from(act.to.clone()).unwrap_or_else(|_| sc_panic!("bad addr"));
                        let mut args = ManagedArgBuffer::new();
                        for a in act.args.iter() {
                            args.push_arg_raw(a.clone());
                        }
                        self.tx()
                            .to(&to)
                            .raw_call(act.func.clone())
                            .arguments_raw(args)
                            .payment(&act.pays)
                            .sync_call();
                    }
                    _ => sc_panic!("counterparty refused"),
                }
            }
        }
    }
}

pub mod acc {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait Acc {
        #[init]
        fn init(&self) {}
        #[payable]
        #[endpoint]
        fn deposit(&self) {}
    }
}

/// XExchange safe-price view: amount_out = amount_in * num / den, keyed by pair and token_in.
pub mod safe {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait Safe {
        #[init]
        fn init(&self) {}
        #[storage_mapper("q")]
        fn q(&self, pair: &ManagedAddress, tok: &TokenIdentifier) -> SingleValueMapper<(TokenIdentifier, BigUint, BigUint)>;

        #[view(getSafePriceByTimestampOffset)]
        fn get(&self, pair: ManagedAddress, _offset: u64, pay: EsdtTokenPayment) -> EsdtTokenPayment {
            let m = self.q(&pair, &pay.token_identifier);
            require!(!m.is_empty(), "no safe price");
            let (out, num, den) = m.get();
            EsdtTokenPayment::new(out, 0, pay.amount * num / den)
        }
    }
}

/// XExchange / Onedex pair (also holds LP reserves)
pub mod pair {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait Pair {
        #[init]
        fn init(&self) {}
        #[view(getFirstTokenId)]
        #[storage_mapper("t1")]
        fn t1(&self) -> SingleValueMapper<TokenIdentifier>;
        #[view(getSecondTokenId)]
        #[storage_mapper("t2")]
        fn t2(&self) -> SingleValueMapper<TokenIdentifier>;
        #[view(getPairFirstTokenId)]
        fn p1(&self, _id: usize) -> TokenIdentifier {
            self.t1().get()
        }
        #[view(getPairSecondTokenId)]
        fn p2(&self, _id: usize) -> TokenIdentifier {
            self.t2().get()
        }
        #[storage_mapper("r")]
        fn r(&self) -> SingleValueMapper<(BigUint, BigUint, BigUint)>;
        #[view(getReservesAndTotalSupply)]
        fn rs(&self) -> MultiValue3<BigUint, BigUint, BigUint> {
            self.r().get().into()
        }
        #[storage_mapper("q")]
        fn q(&self, tok: &TokenIdentifier) -> SingleValueMapper<(BigUint, BigUint)>;
        #[view(getSafePriceByTimestampOffset)]
        fn get(
            &self,
            tin: TokenIdentifier,
            tout: TokenIdentifier,
            _offset: u64,
            pay: EsdtTokenPayment,
        ) -> EsdtTokenPayment {
            let m = self.q(&tin);
            require!(!m.is_empty(), "no safe price");
            let (num, den) = m.get();
            EsdtTokenPayment::new(tout, 0, pay.amount * num / den)
        }
    }
}

/// Liquid staking contract
pub mod rate {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait Rate {
        #[init]
        fn init(&self) {}
        #[view(getExchangeRate)]
        #[storage_mapper("rate")]
        fn rate(&self) -> SingleValueMapper<BigUint>;
        #[view(getTokenPrice)]
        fn price(&self) -> BigUint {
            let r = self.rate().get();
            require!(r > 0u64, "staking contract unavailable");
            r
        }
        #[view(getMainToken)]
        #[storage_mapper("main")]
        fn main_token(&self) -> SingleValueMapper<TokenIdentifier>;
    }
}
