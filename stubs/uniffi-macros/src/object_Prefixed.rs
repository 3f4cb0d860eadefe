#[doc(hidden)]
pub struct ApiPrefixed(Prefixed);
#[allow(dead_code)]
impl ApiPrefixed {
    pub async fn get(&self, key: &[u8]) -> Result<Option<Gotten>, crate::HyperbeeError> {
        self.0.get(key).await
    }
    pub async fn put(&self, key: &[u8], value: Option<Vec<u8>>) -> Result<Putten, crate::HyperbeeError> {
        self.0.put(key, value).await
    }
    pub async fn delete(&self, key: &[u8]) -> Result<Option<u64>, crate::HyperbeeError> {
        self.0.delete(key).await
    }
}
