//! One run of the client's debug build.
use {
    clap::{CommandFactory, Parser},
    serde_json::Value,
    slashing_cli_checked::dst,
    solana_client::{
        client_error::ClientError,
        nonblocking::rpc_client::RpcClient,
        rpc_client::RpcClientConfig,
        rpc_request::RpcRequest,
        rpc_sender::{RpcSender, RpcTransportStats},
    },
    std::{future::Future, pin::Pin, sync::Arc, time::Duration},
};

struct Boxed(Box<dyn RpcSender + Send + Sync>);

#[async_trait::async_trait]
impl RpcSender for Boxed {
    fn get_transport_stats(&self) -> RpcTransportStats {
        self.0.get_transport_stats()
    }
    fn url(&self) -> String {
        self.0.url()
    }
    async fn send(&self, request: RpcRequest, params: Value) -> Result<Value, ClientError> {
        self.0.send(request, params).await
    }
}

/// Not generic, so that its code is generated here.
pub fn run(sender: Box<dyn RpcSender + Send + Sync>, args: Vec<String>) -> Pin<Box<dyn Future<Output = Result<String, String>>>> {
    Box::pin(async move {
        let cli = dst::Cli::try_parse_from(&args).map_err(|e| format!("arguments: {e}"))?;
        let matches = dst::Cli::command().try_get_matches_from(&args).map_err(|e| format!("arguments: {e}"))?;
        let command = cli.command.clone();
        let mut wallet = None;
        let mut config = dst::Config::new(cli, matches.clone(), &mut wallet).await;
        let commitment = config.rpc_client.commitment();
        config.rpc_client = Arc::new(RpcClient::new_sender(
            Boxed(sender),
            RpcClientConfig { commitment_config: commitment, confirm_transaction_initial_timeout: Some(Duration::from_secs(30)) },
        ));
        command.execute(&config, &matches, &mut wallet).await.map_err(|e| e.to_string())
    })
}
