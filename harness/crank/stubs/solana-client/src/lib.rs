//! Stand-in for the RPC client with the interface the crank and the common library use. Accounts come from
//! a table the harness fills, and every simulated or sent transaction is recorded there.
use solana_sdk::{account::Account, pubkey::Pubkey, transaction::{Transaction, TransactionError}};
pub struct Node {
    pub accounts: Vec<(Pubkey, Vec<u8>)>,
    pub sent: Vec<Transaction>,
    pub simulated: u32,
    /// how a simulation or a submission ends
    pub simulation_fails: bool,
    pub send_fails: bool,
    pub rent_per_byte: u64,
}
pub static mut NODE: Option<Node> = None;
pub fn node() -> &'static mut Node { unsafe { (*std::ptr::addr_of_mut!(NODE)).as_mut().unwrap() } }

pub mod client_error {
    #[derive(Debug)]
    pub struct ClientError;
    impl std::fmt::Display for ClientError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("rpc error") } }
    impl std::error::Error for ClientError {}
    pub type Result<T> = std::result::Result<T, ClientError>;
}
pub mod rpc_config {
    #[derive(Default, Clone, Copy)]
    pub struct RpcSendTransactionConfig { pub skip_preflight: bool, pub max_retries: Option<usize> }
}
pub mod rpc_request { pub enum RpcRequest { SimulateTransaction } }
pub mod rpc_response {
    use super::*;
    #[derive(Debug)]
    pub struct RpcResponseContext { pub slot: u64 }
    #[derive(Debug)]
    pub struct Response<T> { pub context: RpcResponseContext, pub value: T }
    pub type RpcResult<T> = client_error::Result<Response<T>>;
    #[derive(Debug)]
    pub struct RpcSimulateTransactionResult { pub err: Option<TransactionError>, pub logs: Option<Vec<String>> }
}
pub mod rpc_client {
    use super::{*, client_error::{ClientError, Result}, rpc_response::*, rpc_config::*, rpc_request::*};
    use solana_sdk::{commitment_config::CommitmentConfig, hash::Hash, signature::Signature};
    pub struct RpcClient;
    impl RpcClient {
        pub fn new(_url: String) -> Self { RpcClient }
        fn find(&self, k: &Pubkey) -> Option<&'static Vec<u8>> { node().accounts.iter().find(|a| a.0 == *k).map(|a| &a.1) }
        pub fn get_account_data(&self, k: &Pubkey) -> Result<Vec<u8>> { self.find(k).cloned().ok_or(ClientError) }
        pub fn get_account_with_commitment(&self, k: &Pubkey, _c: CommitmentConfig) -> RpcResult<Option<Account>> {
            let value = self.find(k).map(|d| Account { lamports: 1, data: d.clone(), ..Account::default() });
            Ok(Response { context: RpcResponseContext { slot: 1 }, value })
        }
        pub fn get_latest_blockhash(&self) -> Result<Hash> { Ok(Hash::new_from_array([7; 32])) }
        pub fn get_minimum_balance_for_rent_exemption(&self, n: usize) -> Result<u64> { Ok((128 + n as u64) * node().rent_per_byte) }
        pub fn send_transaction_with_config(&self, t: &Transaction, _c: RpcSendTransactionConfig) -> Result<Signature> {
            if node().send_fails { return Err(ClientError); }
            node().sent.push(t.clone());
            Ok(t.signatures[0])
        }
        pub fn send_and_confirm_transaction_with_spinner_and_config(&self, t: &Transaction, _: CommitmentConfig, c: RpcSendTransactionConfig) -> Result<Signature> {
            self.send_transaction_with_config(t, c)
        }
        pub fn send(&self, _r: RpcRequest, _p: serde_json::Value) -> RpcResult<RpcSimulateTransactionResult> {
            node().simulated += 1;
            let err = if node().simulation_fails { Some(TransactionError::AccountNotFound) } else { None };
            Ok(Response { context: RpcResponseContext { slot: 1 }, value: RpcSimulateTransactionResult { err, logs: None } })
        }
    }
}
