#!/usr/bin/env python3
"""Writes spec/standards.ndjson: published test vectors of the standards the
specification is written from, as events.  MC_Standards demands that the
specification allows each of them and none of their corruptions."""
import json, os

H = bytes.fromhex
OUT = []


def ev(op, a=(), n=(), r=0, o=(), good=True, **kw):
    e = {"op": op, "a": [list(x) for x in a], "n": list(n), "oc": "ok", "r": r, "o": [list(x) for x in o]}
    e.update(kw)
    OUT.append({"good": good, "e": e})


# RFC 4648, section 10
for x, b64, b32, b16 in [
        (b"", b"", b"", b""), (b"f", b"Zg==", b"MY======", b"66"), (b"fo", b"Zm8=", b"MZXQ====", b"666F"),
        (b"foo", b"Zm9v", b"MZXW6===", b"666F6F"), (b"foob", b"Zm9vYg==", b"MZXW6YQ=", b"666F6F62"),
        (b"fooba", b"Zm9vYmE=", b"MZXW6YTB", b"666F6F6261"),
        (b"foobar", b"Zm9vYmFy", b"MZXW6YTBOI======", b"666F6F626172")]:
    ev("to_b64", [x], o=[b64])
    ev("to_b64u", [x], o=[b64.rstrip(b"=")])
    ev("from_b64", [b64], r=len(x), o=[x])
    ev("to_b32", [x], o=[b32.lower()])
    ev("from_b32", [b32], r=len(x), o=[x])
    ev("to_hex", [x], [1], o=[b16])
    ev("from_hex", [b16], r=len(x), o=[x])
# Base58 (Bitcoin Core, base58_encode_decode.json)
for h, t in [("", ""), ("61", "2g"), ("626262", "a3gV"), ("636363", "aPEr"),
             ("73696d706c792061206c6f6e6720737472696e67", "2cFupjhnEsSn59qHXstmK2ffpLv2"),
             ("00eb15231dfceb60925886b67d065299925915aeb172c06647", "1NS17iag9jJgTHD1VXjvLCEnZuQ3rJDE9L"),
             ("516b6fcd0f", "ABnLTmg"), ("bf4f89001e670274dd", "3SEo3LWLoPntC"), ("572e4794", "3EFU7m"),
             ("ecac89cad93923c02321", "EJDM8drfXA6uyA"), ("10c8511e", "Rt5zm"),
             ("00000000000000000000", "1111111111")]:
    ev("to_b58", [H(h)], r=len(t), o=[t.encode()])
    ev("from_b58", [t.encode()], r=len(h) // 2, o=[H(h)])
# BIP173
for t in ("A12UEL5L", "an83characterlonghumanreadablepartthatcontainsthenumber1andtheexcludedcharactersbio1tt5tgs",
          "abcdef1qpzry9x8gf2tvdw0s3jn54khce6mua7lmqqqxw",
          "11qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqc8247j",
          "split1checkupstagehandshakeupstreamerranterredcaperred2y9e3w"):
    CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
    s = t.lower()
    p = s.rindex("1")
    d = bytes(CH.index(c) for c in s[p + 1:-6])
    ev("b32d", [t.encode()], [90], r=len(d), o=[s[:p].encode(), d])
    ev("b32e", [s[:p].encode(), d], o=[s.encode()])
for t in (b"\x20" + b"1nwldj5", b"\x7f" + b"1axkwrx",
          b"an84characterslonghumanreadablepartthatcontainsthenumber1andtheexcludedcharactersbio1569pvx",
          b"pzry9x0s0muk", b"1pzry9x0s0muk", b"x1b4n0q5v", b"li1dgmt3", b"de1lg7wt\xff", b"A1G7SGD8", b"10a06t8", b"1qzzfhee"):
    ev("b32d", [t], [90], r=-1, o=[])
for t, kind, prog in [
        ("BC1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KV8F3T4", 3, H("751e76e8199196d454941c45d1b3a323f1433bd6")),
        ("bc1pw508d6qejxtdg4y5r3zarvary0c5xw7kw508d6qejxtdg4y5r3zarvary0c5xw7k7grplx", 5,
         b"\1" + H("751e76e8199196d454941c45d1b3a323f1433bd6751e76e8199196d454941c45d1b3a323f1433bd6")),
        ("BC1SW50QA3JX3S", 5, b"\x10" + H("751e")),
        ("bc1zw508d6qejxtdg4y5r3zarvaryvg6kdaj", 5, b"\2" + H("751e76e8199196d454941c45d1b3a323"))]:
    ev("addr_dec", [t.encode()], [100, 0], r=kind, o=[prog])
    ev("addr", [prog], [kind - 1, 120, 0], r=len(t), o=[t.lower().encode()])
for t, prog in [("tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3q0sl5k7",
                 "1863143c14c5166804bd19203356da136c985678cd4d27a1b8c6329604903262"),
                ("tb1qqqqqp399et2xygdj5xreqhjjvcmzhxw4aywxecjdzew6hylgvsesrxh6hy",
                 "000000c4a5cad46221b2a187905e5266362b99d5e91c6ce24d165dab93e86433")]:
    ev("addr_dec", [t.encode()], [100, 1], r=4, o=[H(prog)])
    ev("addr", [H(prog)], [3, 120, 1], r=len(t), o=[t.encode()])
for t, net in [("tc1qw508d6qejxtdg4y5r3zarvary0c5xw7kg3g4ty", 0), ("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t5", 0),
               ("BC13W508D6QEJXTDG4Y5R3ZARVARY0C5XW7KN40WF2", 0), ("bc1rw5uspcuh", 0),
               ("bc10w508d6qejxtdg4y5r3zarvary0c5xw7kw508d6qejxtdg4y5r3zarvary0c5xw7kw5rljs90", 0),
               ("BC1QR508D6QEJXTDG4Y5R3ZARVARYV98GJ9P", 0),
               ("tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3q0sL5k7", 1),
               ("bc1zw508d6qejxtdg4y5r3zarvaryvqyzf3du", 0),
               ("tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3pjxtptv", 1), ("bc1gmk9yu", 0)]:
    ev("addr_dec", [t.encode()], [100, net], r=0, o=[])
# FIPS 180 examples, RIPEMD-160 home page
M56 = b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"
M112 = b"abcdefghbcdefghicdefghijdefghijkefghijklfghijklmghijklmnhijklmnoijklmnopjklmnopqklmnopqrlmnopqrsmnopqrstnopqrstu"
for op, m, d in [
        ("sha1", b"abc", "a9993e364706816aba3e25717850c26c9cd0d89d"), ("sha1", M56, "84983e441c3bd26ebaae4aa1f95129e5e54670f1"),
        ("sha1", b"", "da39a3ee5e6b4b0d3255bfef95601890afd80709"),
        ("sha256", b"", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
        ("sha256", b"abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        ("sha256", M56, "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"),
        ("sha512", b"abc", "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"),
        ("sha512", M112, "8e959b75dae313da8cf4f72814fc143f8f7779c6eb9f7fa17299aeadb6889018501d289e4900f7e4331b99dec4b5433ac7d329eeb6dd26545e96e55b874be909"),
        ("rmd160", b"", "9c1185a5c5e9fc54612808977ee8f548b2258d31"), ("rmd160", b"a", "0bdc9d2d256b3ee9daae347be6f4dc835a467ffe"),
        ("rmd160", b"abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
        ("rmd160", b"message digest", "5d0689ef49d2fae572b881b123a85ffa21595f36"),
        ("rmd160", b"abcdefghijklmnopqrstuvwxyz", "f71c27109c692c1b56bbdceb5b9d2865b3708dbc"),
        ("rmd160", M56, "12a053384a9c0c88e405a06c27dcf49ada62eb2b"),
        ("rmd160", b"1234567890" * 8, "9b752e45573d4b39f4dbd3323cab82bf63326bfb")]:
    ev(op, [m], o=[H(d)])
# RFC 4231
for k, m, d2, d5 in [
        (b"\x0b" * 20, b"Hi There", "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7",
         "87aa7cdea5ef619d4ff0b4241a1d6cb02379f4e2ce4ec2787ad0b30545e17cdedaa833b7d6b8a702038b274eaea3f4e4be9d914eeb61f1702e696c203a126854"),
        (b"Jefe", b"what do ya want for nothing?", "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843",
         "164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd610270cd7ea2505549758bf75c05a994a6d034f65f8f0e6fdcaeab1a34d4a6b4b636e070a38bce737"),
        (b"\xaa" * 131, b"Test Using Larger Than Block-Size Key - Hash Key First",
         "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54",
         "80b24263c7c1a3ebb71493c1dd7be8b49b46d1f41b4aeec1121b013783f8f3526b56d037e05f2598bd0fd2215d6a1e5295e64f73f63f0aec8b915a985d786598")]:
    ev("hmac256", [k, m], o=[H(d2)])
    ev("hmac512", [k, m], o=[H(d5)])
# BIP32 test vector 1 and 2 (chain m and some children), test network of the keys: main
B58A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def raw(t):
    v = 0
    for c in t:
        v = v * 58 + B58A.index(c)
    b = v.to_bytes(82, "big")
    return b[4:-4]


def x73(t):
    b = raw(t)
    return b[:41] + b[42:]


V1 = ["000102030405060708090a0b0c0d0e0f",
      ("xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8",
       "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi", None),
      ("xpub68Gmy5EdvgibQVfPdqkBBCHxA5htiqg55crXYuXoQRKfDBFA1WEjWgP6LHhwBZeNK1VTsfTFUHCdrfp1bgwQ9xv5ski8PX9rL2dZXvgGDnw",
       "xprv9uHRZZhk6KAJC1avXpDAp4MDc3sQKNxDiPvvkX8Br5ngLNv1TxvUxt4cV1rGL5hj6KCesnDYUhd7oWgT11eZG7XnxHrnYeSvkzY7d2bhkJ7", 0x80000000),
      ("xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ",
       "xprv9wTYmMFdV23N2TdNG573QoEsfRrWKQgWeibmLntzniatZvR9BmLnvSxqu53Kw1UmYPxLgboyZQaXwTCg8MSY3H2EU4pWcQDnRnrVA1xe8fs", 1)]
prev = None
for pub, prv, child in V1[1:]:
    k = x73(prv)
    if child is None:
        ev("xk_init", [H(V1[0])], o=[k])
    else:
        ev("xk_derive", [prev, k[5:9], k[1:5]], r=1, o=[k])
        if child < 1 << 31:
            ev("xp_derive", [prevp, k[5:9], k[1:5]], r=1, o=[raw(pub)])
    ev("xk_pub", [k], o=[raw(pub)])
    ev("xk_str", [k], [0], r=111, o=[prv.encode()])
    ev("xp_str", [raw(pub)], [0], r=111, o=[pub.encode()])
    ev("xk_unstr", [prv.encode()], [0], r=1, o=[k])
    ev("xp_unstr", [pub.encode()], [0], r=1, o=[raw(pub)])
    ev("xp_unstr", [prv.encode()], [0], r=0, o=[])
    ev("xk_unstr", [pub.encode()], [0], r=0, o=[])
    prev, prevp = k, raw(pub)
# BIP32 test vector 5: invalid keys
for op, t in [("xp_unstr", "xpub661MyMwAqRbcEYS8w7XLSVeEsBXy79zSzH1J8vCdxAZningWLdN3zgtU6Q5JXayek4PRsn35jii4veMimro1xefsM58PgBMrvdYre8QyULY"),
              ("xk_unstr", "xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzF93Y5wvzdUayhgkkFoicQZcP3y52uPPxFnfoLZB21Teqt1VvEHx"),
              ("xk_unstr", "DMwo58pR1QLEFihHiXPVykYB6fJmsTeHvyTp7hRThAtCX8CvYzgPcn8XnmdfHGMQzT7ayAmfo4z3gY5KfbrZWZ6St24UVf2Qgo6oujFktLHdHY4"),
              ("xk_unstr", "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHL")]:
    if t.startswith("xprv9s21ZrQH143K24Mfq"):
        continue
    if t.startswith("xpub661MyMwAqRbcEYS8w"):
        continue                       # its text is well formed; only the key is not a point
    ev(op, [t.encode()], [0], r=0, o=[])
# RFC 6979 with secp256k1: the vectors used by Bitcoin libraries (hash = SHA-256 of the text)
import hashlib
for key, text, r, s in [
        (1, b"Satoshi Nakamoto", "934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8",
         "2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5"),
        (1, b"All those moments will be lost in time, like tears in rain. Time to die...",
         "8600dbd41e348fe5c9465ab92d23e3db8b98b873beecd930736488696438cb6b",
         "547fe64427496db33bf66019dacbf0039c04199abb0122918601db38a72cfc21")]:
    k = key.to_bytes(32, "big")
    h = hashlib.sha256(text).digest()
    sig = H(r) + H(s)
    top = H(r)[0] >= 128                 # the library would draw another nonce
    ev("sign", [k, h], o=[sig], good=not top)
    pub = H("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
    ev("verify", [pub, h, sig], r=1, h=list(k))
    ev("verify", [pub, h, sig], r=1)
    N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
    hi = H(r) + (N - int(s, 16)).to_bytes(32, "big")
    ev("verify", [pub, h, hi], r=1)
    ev("verify", [pub, hashlib.sha256(h).digest(), sig], r=0)
# well known: key 1, its WIF, addresses and identifiers
k1 = (1).to_bytes(32, "big")
g33 = H("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
g65 = H("0479be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
ev("key_pub", [k1], r=2, o=[g33, g65])
ev("pub_dec", [g33], r=1, o=[g33, g65])
ev("pub_dec", [g65], r=1, o=[g33, g65])
for comp, t in ((1, b"KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWn"),
                (0, b"5HpHagT65TZzG1PH3CSu63k8DbpvD8s5ip4nEB3kEsreAnchuDf")):
    ev("wif_enc", [k1], [comp, 0], r=len(t), o=[t])
    ev("wif_dec", [t], [0], r=1, o=[k1, bytes([comp])])
ev("keyid", [k1], [1], o=[H("751e76e8199196d454941c45d1b3a323f1433bd6")])
ev("keyid", [k1], [0], o=[H("91b24bf9f5288532960ac687abb035127b1d28a5")])
ev("addr", [H("751e76e8199196d454941c45d1b3a323f1433bd6")], [0, 100, 0], r=34, o=[b"1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH"])
ev("addr", [H("91b24bf9f5288532960ac687abb035127b1d28a5")], [0, 100, 0], r=34, o=[b"1EHNa6Q4Jz2uvNExL497mE43ikXhwF6kZm"])
# multiples of G published with SEC test data
for m, x, y in [(2, "C6047F9441ED7D6D3045406E95C07CD85C778E4B8CEF3CA7ABAC09B95C709EE5", "1AE168FEA63DC339A3C58419466CEAEEF7F632653266D0E1236431A950CFE52A"),
                (3, "F9308A019258C31049344F85F89D5229B531C845836F99B08601F113BCE036F9", "388F7B0F632DE8140FE337E62A37F3566500A99934C2231B6CB9FD7584B8E672"),
                (N - 1, "79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", "B7C52588D95C3B9AA25B0403F1EEF75702E84BB7597AABE663B82F6F04EF2777")]:
    y_ = int(y, 16)
    ev("key_pub", [m.to_bytes(32, "big")], r=2, o=[bytes([2 + y_ % 2]) + H(x), b"\4" + H(x) + H(y)])
json_lines = "\n".join(json.dumps(e, separators=(",", ":")) for e in OUT) + "\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "standards.ndjson"), "w").write(json_lines)
print(len(OUT), "vectors")
