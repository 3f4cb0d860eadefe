/// Lets the harness call the exported object, whose type is private, as the scaffolding would.
#[doc(hidden)]
pub struct ApiHyperbee(Hyperbee);
#[allow(dead_code)]
impl ApiHyperbee {
    pub async fn ram() -> Result<Self, crate::HyperbeeError> {
        Ok(Self(hyperbee_from_ram().await?))
    }
    pub async fn dir(d: &str) -> Result<Self, crate::HyperbeeError> {
        Ok(Self(hyperbee_from_storage_dir(d).await?))
    }
    pub async fn version(&self) -> u64 {
        self.0.version().await
    }
    pub async fn get(&self, key: &[u8]) -> Result<Option<Gotten>, crate::HyperbeeError> {
        self.0.get(key).await
    }
    pub async fn put(&self, key: &[u8], value: Option<Vec<u8>>) -> Result<Putten, crate::HyperbeeError> {
        self.0.put(key, value).await
    }
    pub async fn delete(&self, key: &[u8]) -> Result<Option<u64>, crate::HyperbeeError> {
        self.0.delete(key).await
    }
    pub async fn sub(&self, prefix: &[u8], config: crate::prefixed::PrefixedConfig) -> ApiPrefixed {
        ApiPrefixed(self.0.sub(prefix, config).await)
    }
}
