//! Published constants with the values the TPM 2.0 Library assigns (literals).
use tpm2_rs_base::*;
use tpm2_rs_base::constants::*;
pub type Group = (&'static str, u32, &'static [(&'static str, u64, u64)]);
/// (type, width in bytes, [(name, published value, specified value)])
pub fn groups() -> Vec<Group> {
    vec![
        ("TpmAlgId", 2, &[
            ("RSA", TpmAlgId::RSA.0 as u64, 0x1),
            ("TDES", TpmAlgId::TDES.0 as u64, 0x3),
            ("SHA1", TpmAlgId::SHA1.0 as u64, 0x4),
            ("HMAC", TpmAlgId::HMAC.0 as u64, 0x5),
            ("AES", TpmAlgId::AES.0 as u64, 0x6),
            ("MGF1", TpmAlgId::MGF1.0 as u64, 0x7),
            ("KeyedHash", TpmAlgId::KeyedHash.0 as u64, 0x8),
            ("XOR", TpmAlgId::XOR.0 as u64, 0xa),
            ("SHA256", TpmAlgId::SHA256.0 as u64, 0xb),
            ("SHA384", TpmAlgId::SHA384.0 as u64, 0xc),
            ("SHA512", TpmAlgId::SHA512.0 as u64, 0xd),
            ("Null", TpmAlgId::Null.0 as u64, 0x10),
            ("SM3256", TpmAlgId::SM3256.0 as u64, 0x12),
            ("SM4", TpmAlgId::SM4.0 as u64, 0x13),
            ("RSASSA", TpmAlgId::RSASSA.0 as u64, 0x14),
            ("RSAES", TpmAlgId::RSAES.0 as u64, 0x15),
            ("RSAPSS", TpmAlgId::RSAPSS.0 as u64, 0x16),
            ("OAEP", TpmAlgId::OAEP.0 as u64, 0x17),
            ("ECDSA", TpmAlgId::ECDSA.0 as u64, 0x18),
            ("ECDH", TpmAlgId::ECDH.0 as u64, 0x19),
            ("ECDAA", TpmAlgId::ECDAA.0 as u64, 0x1a),
            ("SM2", TpmAlgId::SM2.0 as u64, 0x1b),
            ("ECSchnorr", TpmAlgId::ECSchnorr.0 as u64, 0x1c),
            ("ECMQV", TpmAlgId::ECMQV.0 as u64, 0x1d),
            ("KDF1SP80056A", TpmAlgId::KDF1SP80056A.0 as u64, 0x20),
            ("KDF2", TpmAlgId::KDF2.0 as u64, 0x21),
            ("KDF1SP800108", TpmAlgId::KDF1SP800108.0 as u64, 0x22),
            ("ECC", TpmAlgId::ECC.0 as u64, 0x23),
            ("SymCipher", TpmAlgId::SymCipher.0 as u64, 0x25),
            ("Camellia", TpmAlgId::Camellia.0 as u64, 0x26),
            ("SHA3256", TpmAlgId::SHA3256.0 as u64, 0x27),
            ("SHA3384", TpmAlgId::SHA3384.0 as u64, 0x28),
            ("SHA3512", TpmAlgId::SHA3512.0 as u64, 0x29),
            ("CMAC", TpmAlgId::CMAC.0 as u64, 0x3f),
            ("CTR", TpmAlgId::CTR.0 as u64, 0x40),
            ("OFB", TpmAlgId::OFB.0 as u64, 0x41),
            ("CBC", TpmAlgId::CBC.0 as u64, 0x42),
            ("CFB", TpmAlgId::CFB.0 as u64, 0x43),
            ("ECB", TpmAlgId::ECB.0 as u64, 0x44),
        ]),
        ("TpmEccCurve", 2, &[
            ("None", TpmEccCurve::None.0 as u64, 0x0),
            ("NistP192", TpmEccCurve::NistP192.0 as u64, 0x1),
            ("NistP224", TpmEccCurve::NistP224.0 as u64, 0x2),
            ("NistP256", TpmEccCurve::NistP256.0 as u64, 0x3),
            ("NistP384", TpmEccCurve::NistP384.0 as u64, 0x4),
            ("NistP521", TpmEccCurve::NistP521.0 as u64, 0x5),
            ("BNP256", TpmEccCurve::BNP256.0 as u64, 0x10),
            ("BNP638", TpmEccCurve::BNP638.0 as u64, 0x11),
            ("SM2P256", TpmEccCurve::SM2P256.0 as u64, 0x20),
        ]),
        ("TpmCc", 4, &[
            ("NVUndefineSpaceSpecial", TpmCc::NVUndefineSpaceSpecial.0 as u64, 0x11f),
            ("EvictControl", TpmCc::EvictControl.0 as u64, 0x120),
            ("HierarchyControl", TpmCc::HierarchyControl.0 as u64, 0x121),
            ("NVUndefineSpace", TpmCc::NVUndefineSpace.0 as u64, 0x122),
            ("ChangeEPS", TpmCc::ChangeEPS.0 as u64, 0x124),
            ("ChangePPS", TpmCc::ChangePPS.0 as u64, 0x125),
            ("Clear", TpmCc::Clear.0 as u64, 0x126),
            ("ClearControl", TpmCc::ClearControl.0 as u64, 0x127),
            ("ClockSet", TpmCc::ClockSet.0 as u64, 0x128),
            ("HierarchyChanegAuth", TpmCc::HierarchyChanegAuth.0 as u64, 0x129),
            ("NVDefineSpace", TpmCc::NVDefineSpace.0 as u64, 0x12a),
            ("PCRAllocate", TpmCc::PCRAllocate.0 as u64, 0x12b),
            ("PCRSetAuthPolicy", TpmCc::PCRSetAuthPolicy.0 as u64, 0x12c),
            ("PPCommands", TpmCc::PPCommands.0 as u64, 0x12d),
            ("SetPrimaryPolicy", TpmCc::SetPrimaryPolicy.0 as u64, 0x12e),
            ("FieldUpgradeStart", TpmCc::FieldUpgradeStart.0 as u64, 0x12f),
            ("ClockRateAdjust", TpmCc::ClockRateAdjust.0 as u64, 0x130),
            ("CreatePrimary", TpmCc::CreatePrimary.0 as u64, 0x131),
            ("NVGlobalWriteLock", TpmCc::NVGlobalWriteLock.0 as u64, 0x132),
            ("GetCommandAuditDigest", TpmCc::GetCommandAuditDigest.0 as u64, 0x133),
            ("NVIncrement", TpmCc::NVIncrement.0 as u64, 0x134),
            ("NVSetBits", TpmCc::NVSetBits.0 as u64, 0x135),
            ("NVExtend", TpmCc::NVExtend.0 as u64, 0x136),
            ("NVWrite", TpmCc::NVWrite.0 as u64, 0x137),
            ("NVWriteLock", TpmCc::NVWriteLock.0 as u64, 0x138),
            ("DictionaryAttackLockReset", TpmCc::DictionaryAttackLockReset.0 as u64, 0x139),
            ("DictionaryAttackParameters", TpmCc::DictionaryAttackParameters.0 as u64, 0x13a),
            ("NVChangeAuth", TpmCc::NVChangeAuth.0 as u64, 0x13b),
            ("PCREvent", TpmCc::PCREvent.0 as u64, 0x13c),
            ("PCRReset", TpmCc::PCRReset.0 as u64, 0x13d),
            ("SequenceComplete", TpmCc::SequenceComplete.0 as u64, 0x13e),
            ("SetAlgorithmSet", TpmCc::SetAlgorithmSet.0 as u64, 0x13f),
            ("SetCommandCodeAuditStatus", TpmCc::SetCommandCodeAuditStatus.0 as u64, 0x140),
            ("FieldUpgradeData", TpmCc::FieldUpgradeData.0 as u64, 0x141),
            ("IncrementalSelfTest", TpmCc::IncrementalSelfTest.0 as u64, 0x142),
            ("SelfTest", TpmCc::SelfTest.0 as u64, 0x143),
            ("Startup", TpmCc::Startup.0 as u64, 0x144),
            ("Shutdown", TpmCc::Shutdown.0 as u64, 0x145),
            ("StirRandom", TpmCc::StirRandom.0 as u64, 0x146),
            ("ActivateCredential", TpmCc::ActivateCredential.0 as u64, 0x147),
            ("Certify", TpmCc::Certify.0 as u64, 0x148),
            ("PolicyNV", TpmCc::PolicyNV.0 as u64, 0x149),
            ("CertifyCreation", TpmCc::CertifyCreation.0 as u64, 0x14a),
            ("Duplicate", TpmCc::Duplicate.0 as u64, 0x14b),
            ("GetTime", TpmCc::GetTime.0 as u64, 0x14c),
            ("GetSessionAuditDigest", TpmCc::GetSessionAuditDigest.0 as u64, 0x14d),
            ("NVRead", TpmCc::NVRead.0 as u64, 0x14e),
            ("NVReadLock", TpmCc::NVReadLock.0 as u64, 0x14f),
            ("ObjectChangeAuth", TpmCc::ObjectChangeAuth.0 as u64, 0x150),
            ("PolicySecret", TpmCc::PolicySecret.0 as u64, 0x151),
            ("Rewrap", TpmCc::Rewrap.0 as u64, 0x152),
            ("Create", TpmCc::Create.0 as u64, 0x153),
            ("ECDHZGen", TpmCc::ECDHZGen.0 as u64, 0x154),
            ("MAC", TpmCc::MAC.0 as u64, 0x155),
            ("Import", TpmCc::Import.0 as u64, 0x156),
            ("Load", TpmCc::Load.0 as u64, 0x157),
            ("Quote", TpmCc::Quote.0 as u64, 0x158),
            ("RSADecrypt", TpmCc::RSADecrypt.0 as u64, 0x159),
            ("MACStart", TpmCc::MACStart.0 as u64, 0x15b),
            ("SequenceUpdate", TpmCc::SequenceUpdate.0 as u64, 0x15c),
            ("Sign", TpmCc::Sign.0 as u64, 0x15d),
            ("Unseal", TpmCc::Unseal.0 as u64, 0x15e),
            ("PolicySigned", TpmCc::PolicySigned.0 as u64, 0x160),
            ("ContextLoad", TpmCc::ContextLoad.0 as u64, 0x161),
            ("ContextSave", TpmCc::ContextSave.0 as u64, 0x162),
            ("ECDHKeyGen", TpmCc::ECDHKeyGen.0 as u64, 0x163),
            ("EncryptDecrypt", TpmCc::EncryptDecrypt.0 as u64, 0x164),
            ("FlushContext", TpmCc::FlushContext.0 as u64, 0x165),
            ("LoadExternal", TpmCc::LoadExternal.0 as u64, 0x167),
            ("MakeCredential", TpmCc::MakeCredential.0 as u64, 0x168),
            ("NVReadPublic", TpmCc::NVReadPublic.0 as u64, 0x169),
            ("PolicyAuthorize", TpmCc::PolicyAuthorize.0 as u64, 0x16a),
            ("PolicyAuthValue", TpmCc::PolicyAuthValue.0 as u64, 0x16b),
            ("PolicyCommandCode", TpmCc::PolicyCommandCode.0 as u64, 0x16c),
            ("PolicyCounterTimer", TpmCc::PolicyCounterTimer.0 as u64, 0x16d),
            ("PolicyCpHash", TpmCc::PolicyCpHash.0 as u64, 0x16e),
            ("PolicyLocality", TpmCc::PolicyLocality.0 as u64, 0x16f),
            ("PolicyNameHash", TpmCc::PolicyNameHash.0 as u64, 0x170),
            ("PolicyOR", TpmCc::PolicyOR.0 as u64, 0x171),
            ("PolicyTicket", TpmCc::PolicyTicket.0 as u64, 0x172),
            ("ReadPublic", TpmCc::ReadPublic.0 as u64, 0x173),
            ("RSAEncrypt", TpmCc::RSAEncrypt.0 as u64, 0x174),
            ("StartAuthSession", TpmCc::StartAuthSession.0 as u64, 0x176),
            ("VerifySignature", TpmCc::VerifySignature.0 as u64, 0x177),
            ("ECCParameters", TpmCc::ECCParameters.0 as u64, 0x178),
            ("FirmwareRead", TpmCc::FirmwareRead.0 as u64, 0x179),
            ("GetCapability", TpmCc::GetCapability.0 as u64, 0x17a),
            ("GetRandom", TpmCc::GetRandom.0 as u64, 0x17b),
            ("GetTestResult", TpmCc::GetTestResult.0 as u64, 0x17c),
            ("Hash", TpmCc::Hash.0 as u64, 0x17d),
            ("PCRRead", TpmCc::PCRRead.0 as u64, 0x17e),
            ("PolicyPCR", TpmCc::PolicyPCR.0 as u64, 0x17f),
            ("PolicyRestart", TpmCc::PolicyRestart.0 as u64, 0x180),
            ("ReadClock", TpmCc::ReadClock.0 as u64, 0x181),
            ("PCRExtend", TpmCc::PCRExtend.0 as u64, 0x182),
            ("PCRSetAuthValue", TpmCc::PCRSetAuthValue.0 as u64, 0x183),
            ("NVCertify", TpmCc::NVCertify.0 as u64, 0x184),
            ("EventSequenceComplete", TpmCc::EventSequenceComplete.0 as u64, 0x185),
            ("HashSequenceStart", TpmCc::HashSequenceStart.0 as u64, 0x186),
            ("PolicyPhysicalPresence", TpmCc::PolicyPhysicalPresence.0 as u64, 0x187),
            ("PolicyDuplicationSelect", TpmCc::PolicyDuplicationSelect.0 as u64, 0x188),
            ("PolicyGetDigest", TpmCc::PolicyGetDigest.0 as u64, 0x189),
            ("TestParams", TpmCc::TestParams.0 as u64, 0x18a),
            ("Commit", TpmCc::Commit.0 as u64, 0x18b),
            ("PolicyPassword", TpmCc::PolicyPassword.0 as u64, 0x18c),
            ("ZGen2Phase", TpmCc::ZGen2Phase.0 as u64, 0x18d),
            ("ECEphemeral", TpmCc::ECEphemeral.0 as u64, 0x18e),
            ("PolicyNvWritten", TpmCc::PolicyNvWritten.0 as u64, 0x18f),
            ("PolicyTemplate", TpmCc::PolicyTemplate.0 as u64, 0x190),
            ("CreateLoaded", TpmCc::CreateLoaded.0 as u64, 0x191),
            ("PolicyAuthorizeNV", TpmCc::PolicyAuthorizeNV.0 as u64, 0x192),
            ("EncryptDecrypt2", TpmCc::EncryptDecrypt2.0 as u64, 0x193),
            ("ACGetCapability", TpmCc::ACGetCapability.0 as u64, 0x194),
            ("ACSend", TpmCc::ACSend.0 as u64, 0x195),
            ("PolicyACSendSelect", TpmCc::PolicyACSendSelect.0 as u64, 0x196),
            ("CertifyX509", TpmCc::CertifyX509.0 as u64, 0x197),
            ("ACTSetTimeout", TpmCc::ACTSetTimeout.0 as u64, 0x198),
        ]),
        ("TpmRc", 4, &[
            ("Success", TpmRc::Success.0 as u64, 0x0),
            ("Initialize", TpmRc::Initialize.0 as u64, 0x100),
            ("Failure", TpmRc::Failure.0 as u64, 0x101),
            ("Sequence", TpmRc::Sequence.0 as u64, 0x103),
            ("Private", TpmRc::Private.0 as u64, 0x10b),
            ("Hmac", TpmRc::Hmac.0 as u64, 0x119),
            ("Disabled", TpmRc::Disabled.0 as u64, 0x120),
            ("Exclusive", TpmRc::Exclusive.0 as u64, 0x121),
            ("AuthType", TpmRc::AuthType.0 as u64, 0x124),
            ("AuthMissing", TpmRc::AuthMissing.0 as u64, 0x125),
            ("Policy", TpmRc::Policy.0 as u64, 0x126),
            ("Pcr", TpmRc::Pcr.0 as u64, 0x127),
            ("PCRChanged", TpmRc::PCRChanged.0 as u64, 0x128),
            ("Upgrade", TpmRc::Upgrade.0 as u64, 0x12d),
            ("TooManyContexts", TpmRc::TooManyContexts.0 as u64, 0x12e),
            ("AuthUnavailable", TpmRc::AuthUnavailable.0 as u64, 0x12f),
            ("Reboot", TpmRc::Reboot.0 as u64, 0x130),
            ("Unbalanced", TpmRc::Unbalanced.0 as u64, 0x131),
            ("CommandSize", TpmRc::CommandSize.0 as u64, 0x142),
            ("CommandCode", TpmRc::CommandCode.0 as u64, 0x143),
            ("AuthSize", TpmRc::AuthSize.0 as u64, 0x144),
            ("AuthContext", TpmRc::AuthContext.0 as u64, 0x145),
            ("NVRange", TpmRc::NVRange.0 as u64, 0x146),
            ("NVSize", TpmRc::NVSize.0 as u64, 0x147),
            ("NVLocked", TpmRc::NVLocked.0 as u64, 0x148),
            ("NVAuthorization", TpmRc::NVAuthorization.0 as u64, 0x149),
            ("NVUninitialized", TpmRc::NVUninitialized.0 as u64, 0x14a),
            ("NVSpace", TpmRc::NVSpace.0 as u64, 0x14b),
            ("NVDefined", TpmRc::NVDefined.0 as u64, 0x14c),
            ("BadContext", TpmRc::BadContext.0 as u64, 0x150),
            ("CPHash", TpmRc::CPHash.0 as u64, 0x151),
            ("Parent", TpmRc::Parent.0 as u64, 0x152),
            ("NeedsTest", TpmRc::NeedsTest.0 as u64, 0x153),
            ("NoResult", TpmRc::NoResult.0 as u64, 0x154),
            ("Sensitive", TpmRc::Sensitive.0 as u64, 0x155),
            ("CAsymmetric", TpmRc::CAsymmetric.0 as u64, 0x81),
            ("Attributes", TpmRc::Attributes.0 as u64, 0x82),
            ("Hash", TpmRc::Hash.0 as u64, 0x83),
            ("Value", TpmRc::Value.0 as u64, 0x84),
            ("Hierarchy", TpmRc::Hierarchy.0 as u64, 0x85),
            ("KeySize", TpmRc::KeySize.0 as u64, 0x87),
            ("Mgf", TpmRc::Mgf.0 as u64, 0x88),
            ("Mode", TpmRc::Mode.0 as u64, 0x89),
            ("Type", TpmRc::Type.0 as u64, 0x8a),
            ("Handle", TpmRc::Handle.0 as u64, 0x8b),
            ("Kdf", TpmRc::Kdf.0 as u64, 0x8c),
            ("Range", TpmRc::Range.0 as u64, 0x8d),
            ("AuthFail", TpmRc::AuthFail.0 as u64, 0x8e),
            ("Nonce", TpmRc::Nonce.0 as u64, 0x8f),
            ("PP", TpmRc::PP.0 as u64, 0x90),
            ("Scheme", TpmRc::Scheme.0 as u64, 0x92),
            ("Size", TpmRc::Size.0 as u64, 0x95),
            ("Symmetric", TpmRc::Symmetric.0 as u64, 0x96),
            ("Tag", TpmRc::Tag.0 as u64, 0x97),
            ("Selector", TpmRc::Selector.0 as u64, 0x98),
            ("Insufficient", TpmRc::Insufficient.0 as u64, 0x9a),
            ("Signature", TpmRc::Signature.0 as u64, 0x9b),
            ("Key", TpmRc::Key.0 as u64, 0x9c),
            ("PolicyFail", TpmRc::PolicyFail.0 as u64, 0x9d),
            ("Integrity", TpmRc::Integrity.0 as u64, 0x9f),
            ("Ticket", TpmRc::Ticket.0 as u64, 0xa0),
            ("ReservedBits", TpmRc::ReservedBits.0 as u64, 0xa1),
            ("BadAuth", TpmRc::BadAuth.0 as u64, 0xa2),
            ("Expired", TpmRc::Expired.0 as u64, 0xa3),
            ("PolicyCC", TpmRc::PolicyCC.0 as u64, 0xa4),
            ("Binding", TpmRc::Binding.0 as u64, 0xa5),
            ("Curve", TpmRc::Curve.0 as u64, 0xa6),
            ("ECCPoint", TpmRc::ECCPoint.0 as u64, 0xa7),
            ("ContextGap", TpmRc::ContextGap.0 as u64, 0x901),
            ("ObjectMemory", TpmRc::ObjectMemory.0 as u64, 0x902),
            ("SessionMemory", TpmRc::SessionMemory.0 as u64, 0x903),
            ("Memory", TpmRc::Memory.0 as u64, 0x904),
            ("SessionHandles", TpmRc::SessionHandles.0 as u64, 0x905),
            ("ObjectHandles", TpmRc::ObjectHandles.0 as u64, 0x906),
            ("Locality", TpmRc::Locality.0 as u64, 0x907),
            ("Yielded", TpmRc::Yielded.0 as u64, 0x908),
            ("Canceled", TpmRc::Canceled.0 as u64, 0x909),
            ("Testing", TpmRc::Testing.0 as u64, 0x90a),
            ("ReferenceH0", TpmRc::ReferenceH0.0 as u64, 0x910),
            ("ReferenceH1", TpmRc::ReferenceH1.0 as u64, 0x911),
            ("ReferenceH2", TpmRc::ReferenceH2.0 as u64, 0x912),
            ("ReferenceH3", TpmRc::ReferenceH3.0 as u64, 0x913),
            ("ReferenceH4", TpmRc::ReferenceH4.0 as u64, 0x914),
            ("ReferenceH5", TpmRc::ReferenceH5.0 as u64, 0x915),
            ("ReferenceH6", TpmRc::ReferenceH6.0 as u64, 0x916),
            ("ReferenceS0", TpmRc::ReferenceS0.0 as u64, 0x918),
            ("ReferenceS1", TpmRc::ReferenceS1.0 as u64, 0x919),
            ("ReferenceS2", TpmRc::ReferenceS2.0 as u64, 0x91a),
            ("ReferenceS3", TpmRc::ReferenceS3.0 as u64, 0x91b),
            ("ReferenceS4", TpmRc::ReferenceS4.0 as u64, 0x91c),
            ("ReferenceS5", TpmRc::ReferenceS5.0 as u64, 0x91d),
            ("ReferenceS6", TpmRc::ReferenceS6.0 as u64, 0x91e),
            ("NVRate", TpmRc::NVRate.0 as u64, 0x920),
            ("Lockout", TpmRc::Lockout.0 as u64, 0x921),
            ("Retry", TpmRc::Retry.0 as u64, 0x922),
            ("NVUnavailable", TpmRc::NVUnavailable.0 as u64, 0x923),
        ]),
        ("TpmEo", 2, &[
            ("Eq", TpmEo::Eq.0 as u64, 0x0),
            ("Neq", TpmEo::Neq.0 as u64, 0x1),
            ("SignedGT", TpmEo::SignedGT.0 as u64, 0x2),
            ("UnsignedGT", TpmEo::UnsignedGT.0 as u64, 0x3),
            ("SignedLT", TpmEo::SignedLT.0 as u64, 0x4),
            ("UnsignedLT", TpmEo::UnsignedLT.0 as u64, 0x5),
            ("SignedGE", TpmEo::SignedGE.0 as u64, 0x6),
            ("UnsignedGE", TpmEo::UnsignedGE.0 as u64, 0x7),
            ("SignedLE", TpmEo::SignedLE.0 as u64, 0x8),
            ("UnsignedLE", TpmEo::UnsignedLE.0 as u64, 0x9),
            ("BitSet", TpmEo::BitSet.0 as u64, 0xa),
            ("BitClear", TpmEo::BitClear.0 as u64, 0xb),
        ]),
        ("TpmSt", 2, &[
            ("RspCommand", TpmSt::RspCommand.0 as u64, 0xc4),
            ("Null", TpmSt::Null.0 as u64, 0x8000),
            ("NoSessions", TpmSt::NoSessions.0 as u64, 0x8001),
            ("Sessions", TpmSt::Sessions.0 as u64, 0x8002),
            ("AttestNV", TpmSt::AttestNV.0 as u64, 0x8014),
            ("AttestCommandAudit", TpmSt::AttestCommandAudit.0 as u64, 0x8015),
            ("AttestSessionAudit", TpmSt::AttestSessionAudit.0 as u64, 0x8016),
            ("AttestCertify", TpmSt::AttestCertify.0 as u64, 0x8017),
            ("AttestQuote", TpmSt::AttestQuote.0 as u64, 0x8018),
            ("AttestTime", TpmSt::AttestTime.0 as u64, 0x8019),
            ("AttestCreation", TpmSt::AttestCreation.0 as u64, 0x801a),
            ("AttestNVDigest", TpmSt::AttestNVDigest.0 as u64, 0x801c),
            ("Creation", TpmSt::Creation.0 as u64, 0x8021),
            ("Verified", TpmSt::Verified.0 as u64, 0x8022),
            ("AuthSecret", TpmSt::AuthSecret.0 as u64, 0x8023),
            ("HashCheck", TpmSt::HashCheck.0 as u64, 0x8024),
            ("AuthSigned", TpmSt::AuthSigned.0 as u64, 0x8025),
            ("FuManifest", TpmSt::FuManifest.0 as u64, 0x8029),
        ]),
        ("TpmSu", 2, &[
            ("Clear", TpmSu::Clear.0 as u64, 0x0),
            ("State", TpmSu::State.0 as u64, 0x1),
        ]),
        ("TpmSe", 1, &[
            ("HMAC", TpmSe::HMAC.0 as u64, 0x0),
            ("Policy", TpmSe::Policy.0 as u64, 0x1),
            ("Trial", TpmSe::Trial.0 as u64, 0x3),
        ]),
        ("TpmCap", 4, &[
            ("Algs", TpmCap::Algs.0 as u64, 0x0),
            ("Handles", TpmCap::Handles.0 as u64, 0x1),
            ("Commands", TpmCap::Commands.0 as u64, 0x2),
            ("PPCommands", TpmCap::PPCommands.0 as u64, 0x3),
            ("AuditCommands", TpmCap::AuditCommands.0 as u64, 0x4),
            ("PCRs", TpmCap::PCRs.0 as u64, 0x5),
            ("TPMProperties", TpmCap::TPMProperties.0 as u64, 0x6),
            ("PCRProperties", TpmCap::PCRProperties.0 as u64, 0x7),
            ("ECCCurves", TpmCap::ECCCurves.0 as u64, 0x8),
            ("AuthPolicies", TpmCap::AuthPolicies.0 as u64, 0x9),
            ("ACT", TpmCap::ACT.0 as u64, 0xa),
        ]),
        ("TpmPt", 4, &[
            ("FamilyIndicator", TpmPt::FamilyIndicator.0 as u64, 0x100),
            ("Level", TpmPt::Level.0 as u64, 0x101),
            ("Revision", TpmPt::Revision.0 as u64, 0x102),
            ("DayofYear", TpmPt::DayofYear.0 as u64, 0x103),
            ("Year", TpmPt::Year.0 as u64, 0x104),
            ("Manufacturer", TpmPt::Manufacturer.0 as u64, 0x105),
            ("VendorString1", TpmPt::VendorString1.0 as u64, 0x106),
            ("VendorString2", TpmPt::VendorString2.0 as u64, 0x107),
            ("VendorString3", TpmPt::VendorString3.0 as u64, 0x108),
            ("VendorString4", TpmPt::VendorString4.0 as u64, 0x109),
            ("VendorTPMType", TpmPt::VendorTPMType.0 as u64, 0x10a),
            ("FirmwareVersion1", TpmPt::FirmwareVersion1.0 as u64, 0x10b),
            ("FirmwareVersion2", TpmPt::FirmwareVersion2.0 as u64, 0x10c),
            ("InputBuffer", TpmPt::InputBuffer.0 as u64, 0x10d),
            ("HRTransientMin", TpmPt::HRTransientMin.0 as u64, 0x10e),
            ("HRPersistentMin", TpmPt::HRPersistentMin.0 as u64, 0x10f),
            ("HRLoadedMin", TpmPt::HRLoadedMin.0 as u64, 0x110),
            ("ActiveSessionsMax", TpmPt::ActiveSessionsMax.0 as u64, 0x111),
            ("PCRCount", TpmPt::PCRCount.0 as u64, 0x112),
            ("PCRSelectMin", TpmPt::PCRSelectMin.0 as u64, 0x113),
            ("ContextGapMax", TpmPt::ContextGapMax.0 as u64, 0x114),
            ("NVCountersMax", TpmPt::NVCountersMax.0 as u64, 0x116),
            ("NVIndexMax", TpmPt::NVIndexMax.0 as u64, 0x117),
            ("Memory", TpmPt::Memory.0 as u64, 0x118),
            ("ClockUpdate", TpmPt::ClockUpdate.0 as u64, 0x119),
            ("ContextHash", TpmPt::ContextHash.0 as u64, 0x11a),
            ("ContextSym", TpmPt::ContextSym.0 as u64, 0x11b),
            ("ContextSymSize", TpmPt::ContextSymSize.0 as u64, 0x11c),
            ("OrderlyCount", TpmPt::OrderlyCount.0 as u64, 0x11d),
            ("MaxCommandSize", TpmPt::MaxCommandSize.0 as u64, 0x11e),
            ("MaxResponseSize", TpmPt::MaxResponseSize.0 as u64, 0x11f),
            ("MaxDigest", TpmPt::MaxDigest.0 as u64, 0x120),
            ("MaxObjectContext", TpmPt::MaxObjectContext.0 as u64, 0x121),
            ("MaxSessionContext", TpmPt::MaxSessionContext.0 as u64, 0x122),
            ("PSFamilyIndicator", TpmPt::PSFamilyIndicator.0 as u64, 0x123),
            ("PSLevel", TpmPt::PSLevel.0 as u64, 0x124),
            ("PSRevision", TpmPt::PSRevision.0 as u64, 0x125),
            ("PSDayOfYear", TpmPt::PSDayOfYear.0 as u64, 0x126),
            ("PSYear", TpmPt::PSYear.0 as u64, 0x127),
            ("SplitMax", TpmPt::SplitMax.0 as u64, 0x128),
            ("TotalCommands", TpmPt::TotalCommands.0 as u64, 0x129),
            ("LibraryCommands", TpmPt::LibraryCommands.0 as u64, 0x12a),
            ("VendorCommands", TpmPt::VendorCommands.0 as u64, 0x12b),
            ("NVBufferMax", TpmPt::NVBufferMax.0 as u64, 0x12c),
            ("Modes", TpmPt::Modes.0 as u64, 0x12d),
            ("MaxCapBuffer", TpmPt::MaxCapBuffer.0 as u64, 0x12e),
            ("Permanent", TpmPt::Permanent.0 as u64, 0x200),
            ("StartupClear", TpmPt::StartupClear.0 as u64, 0x201),
            ("HRNVIndex", TpmPt::HRNVIndex.0 as u64, 0x202),
            ("HRLoaded", TpmPt::HRLoaded.0 as u64, 0x203),
            ("HRLoadedAvail", TpmPt::HRLoadedAvail.0 as u64, 0x204),
            ("HRActive", TpmPt::HRActive.0 as u64, 0x205),
            ("HRActiveAvail", TpmPt::HRActiveAvail.0 as u64, 0x206),
            ("HRTransientAvail", TpmPt::HRTransientAvail.0 as u64, 0x207),
            ("HRPersistent", TpmPt::HRPersistent.0 as u64, 0x208),
            ("HRPersistentAvail", TpmPt::HRPersistentAvail.0 as u64, 0x209),
            ("NVCounters", TpmPt::NVCounters.0 as u64, 0x20a),
            ("NVCountersAvail", TpmPt::NVCountersAvail.0 as u64, 0x20b),
            ("AlgorithmSet", TpmPt::AlgorithmSet.0 as u64, 0x20c),
            ("LoadedCurves", TpmPt::LoadedCurves.0 as u64, 0x20d),
            ("LockoutCounter", TpmPt::LockoutCounter.0 as u64, 0x20e),
            ("MaxAuthFail", TpmPt::MaxAuthFail.0 as u64, 0x20f),
            ("LockoutInterval", TpmPt::LockoutInterval.0 as u64, 0x210),
            ("LockoutRecovery", TpmPt::LockoutRecovery.0 as u64, 0x211),
            ("NVWriteRecovery", TpmPt::NVWriteRecovery.0 as u64, 0x212),
            ("AuditCounter0", TpmPt::AuditCounter0.0 as u64, 0x213),
            ("AuditCounter1", TpmPt::AuditCounter1.0 as u64, 0x214),
        ]),
        ("TpmPtPcr", 4, &[
            ("Save", TpmPtPcr::Save.0 as u64, 0x0),
            ("ExtendL0", TpmPtPcr::ExtendL0.0 as u64, 0x1),
            ("ResetL0", TpmPtPcr::ResetL0.0 as u64, 0x2),
            ("ExtendL1", TpmPtPcr::ExtendL1.0 as u64, 0x3),
            ("ResetL1", TpmPtPcr::ResetL1.0 as u64, 0x4),
            ("ExtendL2", TpmPtPcr::ExtendL2.0 as u64, 0x5),
            ("ResetL2", TpmPtPcr::ResetL2.0 as u64, 0x6),
            ("ExtendL3", TpmPtPcr::ExtendL3.0 as u64, 0x7),
            ("ResetL3", TpmPtPcr::ResetL3.0 as u64, 0x8),
            ("ExtendL4", TpmPtPcr::ExtendL4.0 as u64, 0x9),
            ("ResetL4", TpmPtPcr::ResetL4.0 as u64, 0xa),
            ("NoIncrement", TpmPtPcr::NoIncrement.0 as u64, 0x11),
            ("DRTMRest", TpmPtPcr::DRTMRest.0 as u64, 0x12),
            ("Policy", TpmPtPcr::Policy.0 as u64, 0x13),
            ("Auth", TpmPtPcr::Auth.0 as u64, 0x14),
        ]),
        ("TpmHt", 1, &[
            ("PCR", TpmHt::PCR.0 as u64, 0x0),
            ("NVIndex", TpmHt::NVIndex.0 as u64, 0x1),
            ("HMACSession", TpmHt::HMACSession.0 as u64, 0x2),
            ("PolicySession", TpmHt::PolicySession.0 as u64, 0x3),
            ("Permanent", TpmHt::Permanent.0 as u64, 0x40),
            ("Transient", TpmHt::Transient.0 as u64, 0x80),
            ("Persistent", TpmHt::Persistent.0 as u64, 0x81),
            ("AC", TpmHt::AC.0 as u64, 0x90),
        ]),
        ("TpmHandle", 4, &[
            ("RHOwner", TpmHandle::RHOwner.0 as u64, 0x40000001),
            ("RHNull", TpmHandle::RHNull.0 as u64, 0x40000007),
            ("RSPW", TpmHandle::RSPW.0 as u64, 0x40000009),
            ("RHLockout", TpmHandle::RHLockout.0 as u64, 0x4000000a),
            ("RHEndorsement", TpmHandle::RHEndorsement.0 as u64, 0x4000000b),
            ("RHPlatform", TpmHandle::RHPlatform.0 as u64, 0x4000000c),
            ("RHPlatformNV", TpmHandle::RHPlatformNV.0 as u64, 0x4000000d),
        ]),
        ("TpmNt", 1, &[
            ("Ordinary", TpmNt::Ordinary.0 as u64, 0x0),
            ("Counter", TpmNt::Counter.0 as u64, 0x1),
            ("Bits", TpmNt::Bits.0 as u64, 0x2),
            ("Extend", TpmNt::Extend.0 as u64, 0x4),
            ("PinFail", TpmNt::PinFail.0 as u64, 0x8),
            ("PinPass", TpmNt::PinPass.0 as u64, 0x9),
        ]),
        ("TpmGenerated", 4, &[
            ("VALUE", TpmGenerated::VALUE.0 as u64, 0xff544347),
        ]),
        ("TpmiAlgHash", 2, &[
            ("SHA1", TpmiAlgHash::SHA1.0 as u64, 0x4),
            ("SHA256", TpmiAlgHash::SHA256.0 as u64, 0xb),
            ("SHA384", TpmiAlgHash::SHA384.0 as u64, 0xc),
            ("SHA512", TpmiAlgHash::SHA512.0 as u64, 0xd),
            ("SM3256", TpmiAlgHash::SM3256.0 as u64, 0x12),
            ("SHA3256", TpmiAlgHash::SHA3256.0 as u64, 0x27),
            ("SHA3384", TpmiAlgHash::SHA3384.0 as u64, 0x28),
            ("SHA3512", TpmiAlgHash::SHA3512.0 as u64, 0x29),
        ]),
        ("TpmiAlgKdf", 2, &[
            ("MGF1", TpmiAlgKdf::MGF1.0 as u64, 0x7),
            ("KDF1SP80056A", TpmiAlgKdf::KDF1SP80056A.0 as u64, 0x20),
            ("KDF2", TpmiAlgKdf::KDF2.0 as u64, 0x21),
            ("KDF1SP800108", TpmiAlgKdf::KDF1SP800108.0 as u64, 0x22),
        ]),
        ("TpmiAlgPublic", 2, &[
            ("RSA", TpmiAlgPublic::RSA.0 as u64, 0x1),
            ("KeyedHash", TpmiAlgPublic::KeyedHash.0 as u64, 0x8),
            ("ECC", TpmiAlgPublic::ECC.0 as u64, 0x23),
            ("SymCipher", TpmiAlgPublic::SymCipher.0 as u64, 0x25),
        ]),
        ("TpmiAlgSymMode", 2, &[
            ("CMAC", TpmiAlgSymMode::CMAC.0 as u64, 0x3f),
            ("CTR", TpmiAlgSymMode::CTR.0 as u64, 0x40),
            ("OFB", TpmiAlgSymMode::OFB.0 as u64, 0x41),
            ("CBC", TpmiAlgSymMode::CBC.0 as u64, 0x42),
            ("CFB", TpmiAlgSymMode::CFB.0 as u64, 0x43),
            ("ECB", TpmiAlgSymMode::ECB.0 as u64, 0x44),
        ]),
        ("TpmiAlgSymObject", 2, &[
            ("TDES", TpmiAlgSymObject::TDES.0 as u64, 0x3),
            ("AES", TpmiAlgSymObject::AES.0 as u64, 0x6),
            ("SM4", TpmiAlgSymObject::SM4.0 as u64, 0x13),
            ("Camellia", TpmiAlgSymObject::Camellia.0 as u64, 0x26),
        ]),
        ("TpmiAlgKeyedhashScheme", 2, &[
            ("HMAC", TpmiAlgKeyedhashScheme::HMAC.0 as u64, 0x5),
            ("XOR", TpmiAlgKeyedhashScheme::XOR.0 as u64, 0xa),
        ]),
        ("TpmiAlgRsaScheme", 2, &[
            ("RSAPSS", TpmiAlgRsaScheme::RSAPSS.0 as u64, 0x16),
            ("RSASSA", TpmiAlgRsaScheme::RSASSA.0 as u64, 0x14),
            ("ECDSA", TpmiAlgRsaScheme::ECDSA.0 as u64, 0x18),
            ("ECDAA", TpmiAlgRsaScheme::ECDAA.0 as u64, 0x1a),
            ("SM2", TpmiAlgRsaScheme::SM2.0 as u64, 0x1b),
            ("ECSchnorr", TpmiAlgRsaScheme::ECSchnorr.0 as u64, 0x1c),
            ("RSAES", TpmiAlgRsaScheme::RSAES.0 as u64, 0x15),
            ("OAEP", TpmiAlgRsaScheme::OAEP.0 as u64, 0x17),
        ]),
        ("TpmiAlgSigScheme", 2, &[
            ("RSAPSS", TpmiAlgSigScheme::RSAPSS.0 as u64, 0x16),
            ("RSASSA", TpmiAlgSigScheme::RSASSA.0 as u64, 0x14),
            ("ECDSA", TpmiAlgSigScheme::ECDSA.0 as u64, 0x18),
            ("ECDAA", TpmiAlgSigScheme::ECDAA.0 as u64, 0x1a),
            ("SM2", TpmiAlgSigScheme::SM2.0 as u64, 0x1b),
            ("ECSchnorr", TpmiAlgSigScheme::ECSchnorr.0 as u64, 0x1c),
            ("HMAC", TpmiAlgSigScheme::HMAC.0 as u64, 0x5),
        ]),
        ("TpmiAlgEccScheme", 2, &[
            ("RSAPSS", TpmiAlgEccScheme::RSAPSS.0 as u64, 0x16),
            ("RSASSA", TpmiAlgEccScheme::RSASSA.0 as u64, 0x14),
            ("ECDSA", TpmiAlgEccScheme::ECDSA.0 as u64, 0x18),
            ("ECDAA", TpmiAlgEccScheme::ECDAA.0 as u64, 0x1a),
            ("SM2", TpmiAlgEccScheme::SM2.0 as u64, 0x1b),
            ("ECSchnorr", TpmiAlgEccScheme::ECSchnorr.0 as u64, 0x1c),
            ("ECDH", TpmiAlgEccScheme::ECDH.0 as u64, 0x19),
            ("ECMQV", TpmiAlgEccScheme::ECMQV.0 as u64, 0x1d),
        ]),
        ("TpmiAlgAsymScheme", 2, &[
            ("SM2", TpmiAlgAsymScheme::SM2.0 as u64, 0x1b),
            ("ECDH", TpmiAlgAsymScheme::ECDH.0 as u64, 0x19),
            ("ECMQV", TpmiAlgAsymScheme::ECMQV.0 as u64, 0x1d),
            ("RSAPSS", TpmiAlgAsymScheme::RSAPSS.0 as u64, 0x16),
            ("RSASSA", TpmiAlgAsymScheme::RSASSA.0 as u64, 0x14),
            ("ECDSA", TpmiAlgAsymScheme::ECDSA.0 as u64, 0x18),
            ("ECDAA", TpmiAlgAsymScheme::ECDAA.0 as u64, 0x1a),
            ("ECSchnorr", TpmiAlgAsymScheme::ECSchnorr.0 as u64, 0x1c),
            ("RSAES", TpmiAlgAsymScheme::RSAES.0 as u64, 0x15),
            ("OAEP", TpmiAlgAsymScheme::OAEP.0 as u64, 0x17),
        ]),
        ("TpmiYesNo", 1, &[
            ("NO", TpmiYesNo::NO.0 as u64, 0x0),
            ("YES", TpmiYesNo::YES.0 as u64, 0x1),
        ]),
        ("TpmiStAttest", 2, &[
            ("AttestCertify", TpmiStAttest::AttestCertify.0 as u64, 0x8017),
            ("AttestQuote", TpmiStAttest::AttestQuote.0 as u64, 0x8018),
            ("AttestSessionAudit", TpmiStAttest::AttestSessionAudit.0 as u64, 0x8016),
            ("AttestCommandAudit", TpmiStAttest::AttestCommandAudit.0 as u64, 0x8015),
            ("AttestTime", TpmiStAttest::AttestTime.0 as u64, 0x8019),
            ("AttestCreation", TpmiStAttest::AttestCreation.0 as u64, 0x801a),
            ("AttestNV", TpmiStAttest::AttestNV.0 as u64, 0x8014),
            ("AttestNVDigest", TpmiStAttest::AttestNVDigest.0 as u64, 0x801c),
        ]),
        ("TpmiStCommandTag", 2, &[
            ("NoSessions", TpmiStCommandTag::NoSessions.0 as u64, 0x8001),
            ("Sessions", TpmiStCommandTag::Sessions.0 as u64, 0x8002),
        ]),
        ("TpmaLocality", 1, &[
            ("LOC_ZERO", TpmaLocality::LOC_ZERO.0 as u64, 0x1),
            ("LOC_ONE", TpmaLocality::LOC_ONE.0 as u64, 0x2),
            ("LOC_TWO", TpmaLocality::LOC_TWO.0 as u64, 0x4),
            ("LOC_THREE", TpmaLocality::LOC_THREE.0 as u64, 0x8),
            ("LOC_FOUR", TpmaLocality::LOC_FOUR.0 as u64, 0x10),
        ]),
        ("TpmaNv", 4, &[
            ("PPWRITE", TpmaNv::PPWRITE.0 as u64, 0x1),
            ("OWNERWRITE", TpmaNv::OWNERWRITE.0 as u64, 0x2),
            ("AUTHWRITE", TpmaNv::AUTHWRITE.0 as u64, 0x4),
            ("POLICYWRITE", TpmaNv::POLICYWRITE.0 as u64, 0x8),
            ("POLICY_DELETE", TpmaNv::POLICY_DELETE.0 as u64, 0x400),
            ("WRITELOCKED", TpmaNv::WRITELOCKED.0 as u64, 0x800),
            ("WRITEALL", TpmaNv::WRITEALL.0 as u64, 0x1000),
            ("WRITEDEFINE", TpmaNv::WRITEDEFINE.0 as u64, 0x2000),
            ("WRITE_STCLEAR", TpmaNv::WRITE_STCLEAR.0 as u64, 0x4000),
            ("GLOBALLOCK", TpmaNv::GLOBALLOCK.0 as u64, 0x8000),
            ("PPREAD", TpmaNv::PPREAD.0 as u64, 0x10000),
            ("OWNERREAD", TpmaNv::OWNERREAD.0 as u64, 0x20000),
            ("AUTHREAD", TpmaNv::AUTHREAD.0 as u64, 0x40000),
            ("POLICYREAD", TpmaNv::POLICYREAD.0 as u64, 0x80000),
            ("NO_DA", TpmaNv::NO_DA.0 as u64, 0x2000000),
            ("ORDERLY", TpmaNv::ORDERLY.0 as u64, 0x4000000),
            ("CLEAR_STCLEAR", TpmaNv::CLEAR_STCLEAR.0 as u64, 0x8000000),
            ("READLOCKED", TpmaNv::READLOCKED.0 as u64, 0x10000000),
            ("WRITTEN", TpmaNv::WRITTEN.0 as u64, 0x20000000),
            ("PLATFORMCREATE", TpmaNv::PLATFORMCREATE.0 as u64, 0x40000000),
            ("READ_STCLEAR", TpmaNv::READ_STCLEAR.0 as u64, 0x80000000),
        ]),
        ("TpmaObject", 4, &[
            ("FIXED_TPM", TpmaObject::FIXED_TPM.0 as u64, 0x2),
            ("ST_CLEAR", TpmaObject::ST_CLEAR.0 as u64, 0x4),
            ("FIXED_PARENT", TpmaObject::FIXED_PARENT.0 as u64, 0x10),
            ("SENSITIVE_DATA_ORIGIN", TpmaObject::SENSITIVE_DATA_ORIGIN.0 as u64, 0x20),
            ("USER_WITH_AUTH", TpmaObject::USER_WITH_AUTH.0 as u64, 0x40),
            ("ADMIN_WITH_POLICY", TpmaObject::ADMIN_WITH_POLICY.0 as u64, 0x80),
            ("NO_DA", TpmaObject::NO_DA.0 as u64, 0x400),
            ("ENCRYPTED_DUPLICATION", TpmaObject::ENCRYPTED_DUPLICATION.0 as u64, 0x800),
            ("RESTRICTED", TpmaObject::RESTRICTED.0 as u64, 0x10000),
            ("DECRYPT", TpmaObject::DECRYPT.0 as u64, 0x20000),
            ("SIGN_ENCRYPT", TpmaObject::SIGN_ENCRYPT.0 as u64, 0x40000),
            ("X509_SIGN", TpmaObject::X509_SIGN.0 as u64, 0x80000),
        ]),
        ("TpmaAlgorithm", 4, &[
            ("ASYMMETRIC", TpmaAlgorithm::ASYMMETRIC.0 as u64, 0x1),
            ("SYMMETRIC", TpmaAlgorithm::SYMMETRIC.0 as u64, 0x2),
            ("HASH", TpmaAlgorithm::HASH.0 as u64, 0x4),
            ("OBJECT", TpmaAlgorithm::OBJECT.0 as u64, 0x8),
            ("SIGNING", TpmaAlgorithm::SIGNING.0 as u64, 0x100),
            ("ENCRYPTING", TpmaAlgorithm::ENCRYPTING.0 as u64, 0x200),
            ("METHOD", TpmaAlgorithm::METHOD.0 as u64, 0x400),
        ]),
        ("TpmaSession", 1, &[
            ("CONTINUE_SESSION", TpmaSession::CONTINUE_SESSION.0 as u64, 0x1),
            ("AUDIT_EXCLUSIVE", TpmaSession::AUDIT_EXCLUSIVE.0 as u64, 0x2),
            ("AUDIT_RESET", TpmaSession::AUDIT_RESET.0 as u64, 0x4),
            ("DECRYPT", TpmaSession::DECRYPT.0 as u64, 0x20),
            ("ENCRYPT", TpmaSession::ENCRYPT.0 as u64, 0x40),
            ("AUDIT", TpmaSession::AUDIT.0 as u64, 0x80),
        ]),
        ("TpmaCc", 4, &[
            ("EXTENSIVE", TpmaCc::EXTENSIVE.0 as u64, 0x800000),
            ("FLUSHED", TpmaCc::FLUSHED.0 as u64, 0x1000000),
            ("R_HANDLE", TpmaCc::R_HANDLE.0 as u64, 0x10000000),
            ("V", TpmaCc::V.0 as u64, 0x20000000),
        ]),
        ("tpm2::Alg", 2, &[
            ("Rsa", tpm2::Alg::Rsa.0 as u64, 0x1),
            ("Tdes", tpm2::Alg::Tdes.0 as u64, 0x3),
            ("Sha1", tpm2::Alg::Sha1.0 as u64, 0x4),
            ("Hmac", tpm2::Alg::Hmac.0 as u64, 0x5),
            ("Aes", tpm2::Alg::Aes.0 as u64, 0x6),
            ("Mgf1", tpm2::Alg::Mgf1.0 as u64, 0x7),
            ("KeyedHash", tpm2::Alg::KeyedHash.0 as u64, 0x8),
            ("Null", tpm2::Alg::Null.0 as u64, 0x10),
            ("Xor", tpm2::Alg::Xor.0 as u64, 0xa),
            ("Sha256", tpm2::Alg::Sha256.0 as u64, 0xb),
            ("Sha384", tpm2::Alg::Sha384.0 as u64, 0xc),
            ("Sha512", tpm2::Alg::Sha512.0 as u64, 0xd),
            ("Sm3_256", tpm2::Alg::Sm3_256.0 as u64, 0x12),
            ("Sm4", tpm2::Alg::Sm4.0 as u64, 0x13),
            ("RsaSsa", tpm2::Alg::RsaSsa.0 as u64, 0x14),
            ("RsaEs", tpm2::Alg::RsaEs.0 as u64, 0x15),
            ("RsaPss", tpm2::Alg::RsaPss.0 as u64, 0x16),
            ("Oaep", tpm2::Alg::Oaep.0 as u64, 0x17),
            ("Ecdsa", tpm2::Alg::Ecdsa.0 as u64, 0x18),
            ("Ecdh", tpm2::Alg::Ecdh.0 as u64, 0x19),
            ("Ecdaa", tpm2::Alg::Ecdaa.0 as u64, 0x1a),
            ("Sm2", tpm2::Alg::Sm2.0 as u64, 0x1b),
            ("EcSchnorr", tpm2::Alg::EcSchnorr.0 as u64, 0x1c),
            ("Ecmqv", tpm2::Alg::Ecmqv.0 as u64, 0x1d),
            ("Kdf1Sp800_56A", tpm2::Alg::Kdf1Sp800_56A.0 as u64, 0x20),
            ("Kdf2", tpm2::Alg::Kdf2.0 as u64, 0x21),
            ("Kdf1Sp800_108", tpm2::Alg::Kdf1Sp800_108.0 as u64, 0x22),
            ("Ecc", tpm2::Alg::Ecc.0 as u64, 0x23),
            ("SymCipher", tpm2::Alg::SymCipher.0 as u64, 0x25),
            ("Camellia", tpm2::Alg::Camellia.0 as u64, 0x26),
            ("Sha3_256", tpm2::Alg::Sha3_256.0 as u64, 0x27),
            ("Sha3_384", tpm2::Alg::Sha3_384.0 as u64, 0x28),
            ("Sha3_512", tpm2::Alg::Sha3_512.0 as u64, 0x29),
            ("Ctr", tpm2::Alg::Ctr.0 as u64, 0x40),
            ("Ofb", tpm2::Alg::Ofb.0 as u64, 0x41),
            ("Cbc", tpm2::Alg::Cbc.0 as u64, 0x42),
            ("Cfb", tpm2::Alg::Cfb.0 as u64, 0x43),
            ("Ecb", tpm2::Alg::Ecb.0 as u64, 0x44),
        ]),
        ("limits", 4, &[
            ("TPM2_SHA_DIGEST_SIZE", TPM2_SHA_DIGEST_SIZE as u64, 20),
            ("TPM2_SHA1_DIGEST_SIZE", TPM2_SHA1_DIGEST_SIZE as u64, 20),
            ("TPM2_SHA256_DIGEST_SIZE", TPM2_SHA256_DIGEST_SIZE as u64, 32),
            ("TPM2_SHA384_DIGEST_SIZE", TPM2_SHA384_DIGEST_SIZE as u64, 48),
            ("TPM2_SHA512_DIGEST_SIZE", TPM2_SHA512_DIGEST_SIZE as u64, 64),
            ("TPM2_SM3_256_DIGEST_SIZE", TPM2_SM3_256_DIGEST_SIZE as u64, 32),
            ("TPM2_MAX_DIGEST_BUFFER", TPM2_MAX_DIGEST_BUFFER as u64, 1024),
            ("TPM2_MAX_NV_BUFFER_SIZE", TPM2_MAX_NV_BUFFER_SIZE as u64, 2048),
            ("TPM2_MAX_CAP_BUFFER", TPM2_MAX_CAP_BUFFER as u64, 1024),
            ("TPM2_NUM_PCR_BANKS", TPM2_NUM_PCR_BANKS as u64, 16),
            ("TPM2_MAX_PCRS", TPM2_MAX_PCRS as u64, 32),
            ("TPM2_PCR_SELECT_MAX", TPM2_PCR_SELECT_MAX as u64, 4),
            ("TPM2_LABEL_MAX_BUFFER", TPM2_LABEL_MAX_BUFFER as u64, 32),
            ("TPM2_MAX_SYM_BLOCK_SIZE", TPM2_MAX_SYM_BLOCK_SIZE as u64, 16),
            ("TPM2_MAX_SYM_DATA", TPM2_MAX_SYM_DATA as u64, 256),
            ("TPM2_MAX_ECC_KEY_BYTES", TPM2_MAX_ECC_KEY_BYTES as u64, 128),
            ("TPM2_MAX_SYM_KEY_BYTES", TPM2_MAX_SYM_KEY_BYTES as u64, 32),
            ("TPM2_MAX_RSA_KEY_BYTES", TPM2_MAX_RSA_KEY_BYTES as u64, 512),
            ("TPM2_PRIVATE_VENDOR_SPECIFIC_BYTES", TPM2_PRIVATE_VENDOR_SPECIFIC_BYTES as u64, 1280),
            ("TPM2_MAX_CONTEXT_SIZE", TPM2_MAX_CONTEXT_SIZE as u64, 5120),
            ("TPM2_MAX_ACTIVE_SESSIONS", TPM2_MAX_ACTIVE_SESSIONS as u64, 64),
        ]),
    ]
}
