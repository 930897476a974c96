-------------------------------- MODULE Aes --------------------------------
(* AES-128.  java/Aes.java overrides AesEncrypt with the platform's own     *)
(* implementation; MCAes checks that both agree and give the FIPS vectors.  *)
EXTENDS Integers, Sequences
AesP == INSTANCE AesPure
AesEncrypt(key, block) == AesP!Encrypt(key, block)
=============================================================================
