//! The `ossl` crate of the tree under test, plus what it only offers from OpenSSL 3.2 on.
pub use real::*;

pub mod digest {
    pub use real::digest::*;
    use real::{Error, OsslContext};

    /// OsslDigest with Clone, which OpenSSL 3.0 offers as try_clone
    #[derive(Debug)]
    pub struct OsslDigest(real::digest::OsslDigest);

    impl OsslDigest {
        pub fn new(ctx: &OsslContext, alg: DigestAlg, p: Option<&real::OsslParam>) -> Result<OsslDigest, Error> {
            Ok(OsslDigest(real::digest::OsslDigest::new(ctx, alg, p)?))
        }
        pub fn available(ctx: &OsslContext, alg: DigestAlg) -> bool {
            real::digest::OsslDigest::available(ctx, alg)
        }
    }
    impl Clone for OsslDigest {
        fn clone(&self) -> Self {
            OsslDigest(self.0.try_clone().expect("try_clone"))
        }
    }
    impl std::ops::Deref for OsslDigest {
        type Target = real::digest::OsslDigest;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl std::ops::DerefMut for OsslDigest {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
}

pub mod signature {
    pub use real::signature::*;

    /// OpenSSL 3.0 knows only the pure variants, which take no parameters
    pub fn eddsa_params(
        _alg: SigAlg,
        context: Option<Vec<u8>>,
    ) -> Result<Option<real::OsslParam<'static>>, real::Error> {
        match context {
            None => Ok(None),
            Some(_) => Err(real::Error::new(real::ErrorKind::WrapperError)),
        }
    }
}
