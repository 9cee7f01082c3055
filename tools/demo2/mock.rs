// A stand-in RPC node: a table of accounts, and the limit of 100 addresses per request.
use async_trait::async_trait;
use base64::{engine::general_purpose::STANDARD as BASE64, Engine as _};
use serde_json::{json, Value};
use solana_client::client_error::{ClientErrorKind, Result as RpcResult};
use solana_client::rpc_client::{RpcClient, RpcClientConfig};
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_pubkey::Pubkey;
use std::{collections::HashMap, str::FromStr};

#[derive(Default, Clone)]
pub struct Node(pub HashMap<Pubkey, (Pubkey, u64, Vec<u8>)>);

impl Node {
    pub fn put(&mut self, k: Pubkey, owner: Pubkey, lamports: u64, data: Vec<u8>) { self.0.insert(k, (owner, lamports, data)); }
    fn ui(&self, v: &Value) -> Value {
        match v.as_str().and_then(|s| Pubkey::from_str(s).ok()).and_then(|k| self.0.get(&k)) {
            Some((o, l, d)) => json!({"executable": false, "lamports": l, "owner": o.to_string(), "rentEpoch": 0, "data": [BASE64.encode(d), "base64"], "space": d.len()}),
            None => Value::Null,
        }
    }
    pub fn client(&self) -> RpcClient { RpcClient::new_sender(self.clone(), RpcClientConfig::default()) }
}
#[async_trait]
impl RpcSender for Node {
    async fn send(&self, request: RpcRequest, params: Value) -> RpcResult<Value> {
        match request {
            RpcRequest::GetAccountInfo => Ok(json!({"context": {"slot": 1}, "value": self.ui(&params[0])})),
            RpcRequest::GetMultipleAccounts => {
                let a = params[0].as_array().unwrap();
                if a.len() > 100 { return Err(ClientErrorKind::Custom("Too many inputs provided; max 100".into()).into()); }
                Ok(json!({"context": {"slot": 1}, "value": a.iter().map(|v| self.ui(v)).collect::<Vec<_>>()}))
            }
            _ => Err(ClientErrorKind::Custom("not mocked".into()).into()),
        }
    }
    fn get_transport_stats(&self) -> RpcTransportStats { RpcTransportStats::default() }
    fn url(&self) -> String { "mock://".into() }
}
pub fn token(mint: Pubkey, owner: Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref()); d[32..64].copy_from_slice(owner.as_ref()); d[64..72].copy_from_slice(&amount.to_le_bytes()); d[108] = 1; d
}
pub fn mint(supply: u64) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    d[36..44].copy_from_slice(&supply.to_le_bytes()); d[44] = 6; d[45] = 1; d
}
pub fn state(escrow: u64, cooldown: i64, authority: Pubkey) -> Vec<u8> {
    let mut d = vec![0u8; 2048];
    d[0] = 1; d[6] = 254; d[7] = 253; d[8..16].copy_from_slice(&escrow.to_le_bytes()); d[16..24].copy_from_slice(&cooldown.to_le_bytes()); d[24..56].copy_from_slice(authority.as_ref()); d
}
pub fn record(index: u8, bump: u8, unstaker: Pubkey, amount: u64, time: i64) -> Vec<u8> {
    let mut d = vec![0u8; 1024];
    d[0] = 2; d[6] = bump; d[7] = index; d[8..40].copy_from_slice(unstaker.as_ref()); d[40..48].copy_from_slice(&amount.to_le_bytes()); d[48..56].copy_from_slice(&time.to_le_bytes()); d
}
