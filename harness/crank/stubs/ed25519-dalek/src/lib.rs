//! Stand-in for ed25519 with the interface solana-sdk uses: key pairs are consecutive public keys and a
//! signature is a mark naming the signing key. Signing symbolic messages for real is out of a solver's reach.
pub use ed25519;
pub use ed25519::signature::{Signer, Verifier};
pub use ed25519::Signature;
pub type SignatureError = ed25519::signature::Error;
pub const SECRET_KEY_LENGTH: usize = 32;
pub struct SecretKey(pub [u8; 32]);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct PublicKey(pub [u8; 32]);
#[derive(Debug)]
pub struct Keypair { pub secret: SecretKey, pub public: PublicKey }
static mut NEXT: u8 = 0;
fn bytes32(b: &[u8]) -> Result<[u8; 32], SignatureError> {
    if b.len() != 32 { return Err(SignatureError::new()); }
    let mut a = [0; 32];
    a.copy_from_slice(b);
    Ok(a)
}
impl std::fmt::Debug for SecretKey { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("secret") } }
impl SecretKey {
    pub fn from_bytes(b: &[u8]) -> Result<Self, SignatureError> { bytes32(b).map(SecretKey) }
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
}
impl PublicKey {
    pub fn from_bytes(b: &[u8]) -> Result<Self, SignatureError> { bytes32(b).map(PublicKey) }
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn verify_strict(&self, _m: &[u8], _s: &Signature) -> Result<(), SignatureError> { Ok(()) }
}
impl AsRef<[u8]> for PublicKey { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<&SecretKey> for PublicKey { fn from(s: &SecretKey) -> Self { PublicKey(s.0) } }
impl Verifier<Signature> for PublicKey { fn verify(&self, _m: &[u8], _s: &Signature) -> Result<(), SignatureError> { Ok(()) } }
impl Keypair {
    /// the public key is the secret: [n; 32] with a marker byte
    pub fn generate<R>(_: &mut R) -> Self {
        let n = unsafe { NEXT += 1; NEXT };
        let mut k = [0xc0; 32];
        k[31] = n;
        Keypair { secret: SecretKey(k), public: PublicKey(k) }
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, SignatureError> {
        if b.len() != 64 { return Err(SignatureError::new()); }
        Ok(Keypair { secret: SecretKey(bytes32(&b[..32])?), public: PublicKey(bytes32(&b[32..])?) })
    }
    pub fn to_bytes(&self) -> [u8; 64] {
        let mut a = [0; 64];
        a[..32].copy_from_slice(&self.secret.0);
        a[32..].copy_from_slice(&self.public.0);
        a
    }
}
impl Signer<Signature> for Keypair {
    fn try_sign(&self, _m: &[u8]) -> Result<Signature, SignatureError> {
        let mut a = [0; 64];
        a[..32].copy_from_slice(&self.public.0);
        Ok(<Signature as ed25519::signature::Signature>::from_bytes(&a)?)
    }
}
