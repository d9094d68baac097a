"""Which functions each property is anchored in (path prefixes, optional function-name and observation filters)."""
from rules.generic import Scope as S

H = "tls/handshake/"
SCOPES = {
    # TLS handshake
    "C01": [S([H + "recv/src/recv_finished.c", H + "parse/src/parse_finished.c", H + "send/src/send_finished.c"]), S(H + "common/src/hs_verify.c", roots=r"VERIFY_(Calc|Get|Init|Append|Tls13|.*VerifyData)"), S(H + "common/src/transcript_hash.c")],
    "C02": [S([H + "recv/src/recv_certificate.c", H + "parse/src/parse_certificate.c", "tls/cert/", H + "common/src/hs_cert.c"]),
            S("tls/cm/src/conn_cert.c"), S("tls/config/src/config_cert.c")],
    "C03": [S([H + "recv/src/recv_cert_verify.c", H + "recv/src/recv_server_key_exchange.c", H + "recv/src/recv_client_key_exchange.c", H + "common/src/hs_kx.c",
               H + "parse/src/parse_certificate_verify.c", H + "parse/src/parse_server_key_exchange.c", H + "parse/src/parse_client_key_exchange.c",
               H + "send/src/send_cert_verify.c", H + "send/src/send_server_key_exchange.c", H + "send/src/send_client_key_exchange.c"]),
            S(H + "common/src/hs_verify.c", roots=r"Sign"), S(H + "common/src/tls13key.c"), S("tls/crypt/"), S("tls/cert/hitls_x509_adapt/hitls_x509_crypto.c"),
            S("tls/cert/cert_adapt/", roots=r"Sign|Verify")],
    "C04": [S([H + "sm/", H + "recv/src/", H + "send/src/hs_state_send.c", "tls/ccs/", H + "reass/", H + "parse/src/parse.c"])],
    "C05": [S(["tls/record/src/rec_read.c", "tls/record/src/rec_crypto", "tls/record/src/rec_conn.c", "tls/record/src/rec_buf.c", "tls/record/src/record.c", "tls/record/src/rec_write.c", "tls/record/src/rec_unprocessed_msg.c"])],
    "C06": [S("tls/record/", atoms=r"[Ss]eq|epoch|[Kk]ey|suiteInfo|[Ll]imit"), S("tls/record/src/rec_conn.c"), S("tls/record/src/rec_write.c"), S("tls/record/src/record.c", roots=r"Pending|Active|Key|Suite|Epoch|Seq"),
            S([H + "parse/src/parse_key_update.c", H + "pack/src/pack_key_update.c"]), S("tls/cm/src/", roots="KeyUpdate|KeyState"), S(H + "common/src/tls13key.c")],
    "C07": [S(["tls/record/src/rec_anti_replay.c", "tls/record/src/rec_retransmit.c", "tls/record/src/rec_ack.c", "tls/record/src/rec_unprocessed_msg.c", H + "cookie/", H + "reass/",
               H + "common/src/hs_dtls_timer.c", H + "recv/src/recv_hello_verify_request.c", H + "parse/src/parse_hello_verify_request.c", "tls/cm/src/conn_dtls_cid",
               H + "pack/src/pack_new_connection_id.c", H + "parse/src/parse_new_connection_id.c", "tls/config/src/config_dtls.c", H + "pack/src/pack_hello_verify_request.c", H + "send/src/send_hello_verify_request.c"]),
            S("tls/record/src/rec_read.c", roots=r"[Dd]tls|Dtls|DTLS|UnexpectedMsg|Replay"), S(H, roots=r"[Dd]tls|Cookie")],
    "C08": [S(["tls/alert/", "tls/app/", "tls/cm/src/conn_read.c", "tls/cm/src/conn_write.c", "tls/cm/src/conn_establish.c", "tls/cm/src/conn_common.c", "tls/record/src/rec_alert.c"])],
    "C28": [S([H + "recv/src/recv_client_hello.c", H + "recv/src/recv_server_hello.c", H + "recv/src/recv_encrypted_extensions.c", "tls/feature/security/", "tls/config/src/cipher_suite.c", "tls/config/src/config_check.c",
               "tls/config/src/config_group.c", "tls/config/src/config_sign.c", "tls/feature/alpn/", "tls/feature/sni/", H + "pack/src/pack_server_hello.c", H + "pack/src/pack_client_hello.c", H + "pack/src/pack_extensions.c",
               H + "common/src/hs_common.c", H + "parse/src/parse_extensions", "tls/feature/custom_extensions/", "tls/feature/quic_tls/"])],
    "C29": [S(["tls/feature/session/", H + "recv/src/recv_new_session_ticket.c", H + "parse/src/parse_new_session_ticket.c", H + "pack/src/pack_new_session_ticket.c", H + "send/src/send_new_session_ticket.c"]),
            S(H + "recv/src/", roots=r"[Ss]ess|[Rr]esum|[Pp]sk|PSK|Ticket"), S(H + "recv/src/", atoms=r"[Ss]ess|[Rr]esum|[Pp]sk|PSK|[Tt]icket"), S("tls/cm/src/", roots="[Ss]ession"), S("tls/config/src/", roots="Session|Ticket|Psk")],
    "C36": [S(["tls/config/", "tls/cm/src/conn_ctrl.c", "tls/cm/src/conn_create.c", "tls/cm/src/conn_init.c", "tls/cm/src/conn_cert.c"])],
    "C25": [S([H + "parse/", H + "reass/", "tls/feature/custom_extensions/", "tls/feature/session/src/session_dec.c", "tls/feature/quic_tls/"]), S("tls/record/src/rec_read.c"), S("tls/record/src/rec_ack.c"), S("tls/alert/"), S("tls/ccs/")],
    # crypto
    "C09": [S(["crypto/modes/", "crypto/eal/src/eal_cipher.c", "crypto/eal/src/eal_cipher_method.c", "crypto/chacha20/", "crypto/aes/", "crypto/sm4/"])],
    "C10": [S(["crypto/eal/src/eal_pkey_sign.c", "crypto/ecdsa/", "crypto/dsa/", "crypto/sm2/", "crypto/sm9/", "crypto/mldsa/", "crypto/composite/", "crypto/hbs/", "crypto/rsa/src/rsa_padding.c", "crypto/rsa/src/rsa_encdec.c", "crypto/rsa/src/rsa_ctrl.c",
               "crypto/hmac/", "crypto/cmac/", "crypto/gmac/", "crypto/siphash/", "crypto/eal/src/eal_mac.c"]), S("crypto/curve25519/", roots=r"Sign|Verify|ED25519|Ed25519")],
    "C11": [S(["crypto/mlkem/", "crypto/frodokem/", "crypto/mceliece/", "crypto/hybridkem/", "crypto/dh/", "crypto/ecdh/", "crypto/eal/src/eal_pkey_kem.c", "crypto/eal/src/eal_pkey_computesharekey.c", "crypto/eal/src/eal_pkey_crypt.c",
               "crypto/elgamal/", "crypto/paillier/", "crypto/sm2/src/sm2_crypt.c", "crypto/sm2/src/sm2_exch.c", "crypto/sm9/", "crypto/rsa/src/rsa_padding.c", "crypto/rsa/src/rsa_encdec.c", "crypto/hpke/"]), S("crypto/curve25519/", roots=r"X25519|Share|Curve25519")],
    "C13": [S(["crypto/drbg/", "crypto/eal/src/eal_rand.c", "crypto/eal/src/eal_rand_method.c", "crypto/util/"]),
            S(["crypto/", "tls/", "auth/", "pki/"], atoms=r"Rand|Drbg|DRBG|Seed|Entropy")],
    "C27": [S(["crypto/ecc/", "crypto/rsa/src/rsa_keyop.c", "crypto/rsa/src/rsa_keygen.c", "crypto/rsa/src/rsa_ctrl.c", "crypto/rsa/src/rsa_blinding.c", "crypto/dsa/", "crypto/dh/", "crypto/eal/src/eal_pkey_gen.c", "crypto/eal/src/eal_pkey_params.c", "crypto/eal/src/eal_keymgmt_util.c", "crypto/bn/src/bn_prime.c", "crypto/ealinit/"]),
            S("crypto/", roots=r"Check|SetPrvKey|SetPubKey|SetPara|NewPara|Gen(erate)?Key|KeyGen|IsValid|Check(Pub|Prv|Para|Pair)|SetEncapsKey|SetDecapsKey|Import")],
    "C32": [S(["crypto/hbs/xmss/", "crypto/hbs/hss/", "crypto/hbs/lms/", "crypto/hbs/common/", "crypto/hbs/slh_dsa/"])],
    "C33": [S(["crypto/entropy/", "crypto/eal/src/eal_entropy"])],
    "C34": [S(["crypto/pbkdf2/", "crypto/scrypt/", "crypto/hkdf/", "crypto/kdf/", "crypto/eal/src/eal_kdf.c", "crypto/eal/src/eal_kdf_method.c", "crypto/eal/src/eal_md.c", "crypto/eal/src/eal_md_method.c", "crypto/sha1/", "crypto/sha2/", "crypto/sha3/", "crypto/sm3/", "crypto/md5/", "crypto/blake2/", "crypto/eal/src/eal_mac.c", "crypto/hmac/", "crypto/cmac/", "crypto/siphash/", "crypto/gmac/"])],
    "C22": [S(["crypto/provider/", "crypto/eal/src/eal_common.c", "crypto/eal/src/eal_pkey_method.c", "crypto/eal/src/eal_md_method.c", "crypto/eal/src/eal_mac_method.c", "crypto/eal/src/eal_cipher_method.c", "crypto/eal/src/eal_kdf_method.c", "crypto/eal/src/eal_rand_method.c", "codecs/", "crypto/ealinit/", "crypto/codecsdata/"]),
            S("crypto/eal/", roots=r"Provider|New|Dup|Copy")],
    "C37": [S(["crypto/bn/"])],
    # pki, codecs
    "C24": [S(["pki/x509_verify/"]), S("pki/x509_common/", roots=r"Check|Cmp|Verify|KeyUsage|Issuer|Aki|Ski|Validity|Time"), S("pki/x509_cert/", roots=r"Check|Issued|Verify|Digest"), S("pki/x509_crl/", roots=r"Check|Verify")],
    "C30": [S(["bsl/asn1/", "bsl/pem/", "bsl/base64/", "bsl/tlv/", "crypto/codecskey/", "codecs/", "pki/x509_cert/", "pki/x509_crl/", "pki/x509_csr/", "pki/x509_common/", "crypto/codecsdata/"])],
    "C31": [S(["pki/pkcs12/", "pki/cms/"])],
    # auth
    "C35": [S(["auth/", "crypto/hpke/"])],
    # base
    "C23": [S(["bsl/list/", "bsl/hash/", "bsl/params/", "bsl/conf/", "bsl/uio/", "bsl/ui/", "bsl/buffer/", "bsl/obj/", "bsl/err/", "bsl/print/", "bsl/log/", "bsl/sal/"])],
    "C38": [S(["apps/"])],
}
