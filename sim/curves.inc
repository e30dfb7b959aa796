// generated by tools/gen_curves.py
static const NamedCurve named_curves[] = {
  {WS, "secp112r1", "db7c2abf62e35e668076bead208b", "db7c2abf62e35e668076bead2088", "659ef8ba043916eede8911702b22", "db7c2abf62e35e7628dfac6561c5", "1", "9487239995a5ee76b55f9c2f098", "a89ce5af8724c0a23e0e0ff77500"},
  {WS, "secp112r2", "db7c2abf62e35e668076bead208b", "6127c24c05f38a0aaaf65c0ef02c", "51def1815db5ed74fcc34c85d709", "36df0aafd8b8d7597ca10520d04b", "4", "4ba30ab5e892b4e1649dd0928643", "adcd46f5882e3747def36e956e97"},
  {WS, "secp128r1", "fffffffdffffffffffffffffffffffff", "fffffffdfffffffffffffffffffffffc", "e87579c11079f43dd824993c2cee5ed3", "fffffffe0000000075a30d1b9038a115", "1", "161ff7528b899b2d0c28607ca52c5b86", "cf5ac8395bafeb13c02da292dded7a83"},
  {WS, "secp128r2", "fffffffdffffffffffffffffffffffff", "d6031998d1b3bbfebf59cc9bbff9aee1", "5eeefca380d02919dc2c6558bb6d8a5d", "3fffffff7fffffffbe0024720613b5a3", "4", "7b6aa5d85e572983e6fb32a7cdebc140", "27b6916a894d3aee7106fe805fc34b44"},
  {WS, "secp160k1", "fffffffffffffffffffffffffffffffeffffac73", "0", "7", "100000000000000000001b8fa16dfab9aca16b6b3", "1", "3b4c382ce37aa192a4019e763036f4f5dd4d7ebb", "938cf935318fdced6bc28286531733c3f03c4fee"},
  {WS, "secp160r1", "ffffffffffffffffffffffffffffffff7fffffff", "ffffffffffffffffffffffffffffffff7ffffffc", "1c97befc54bd7a8b65acf89f81d4d4adc565fa45", "100000000000000000001f4c8f927aed3ca752257", "1", "4a96b5688ef573284664698968c38bb913cbfc82", "23a628553168947d59dcc912042351377ac5fb32"},
  {WS, "secp160r2", "fffffffffffffffffffffffffffffffeffffac73", "fffffffffffffffffffffffffffffffeffffac70", "b4e134d3fb59eb8bab57274904664d5af50388ba", "100000000000000000000351ee786a818f3a1a16b", "1", "52dcb034293a117e1f4ff11b30f7199d3144ce6d", "feaffef2e331f296e071fa0df9982cfea7d43f2e"},
  {WS, "brainpoolP160r1", "e95e4a5f737059dc60dfc7ad95b3d8139515620f", "340e7be2a280eb74e2be61bada745d97e8f7c300", "1e589a8595423412134faa2dbdec95c8d8675e58", "e95e4a5f737059dc60df5991d45029409e60fc09", "1", "bed5af16ea3f6a4f62938c4631eb5af7bdbcdbc3", "1667cb477a1a8ec338f94741669c976316da6321"},
  {WS, "brainpoolP160t1", "e95e4a5f737059dc60dfc7ad95b3d8139515620f", "e95e4a5f737059dc60dfc7ad95b3d8139515620c", "7a556b6dae535b7b51ed2c4d7daa7a0b5c55f380", "e95e4a5f737059dc60df5991d45029409e60fc09", "1", "b199b13b9b34efc1397e64baeb05acc265ff2378", "add6718b7c7c1961f0991b842443772152c9e0ad"},
  {WS, "secp192k1", "fffffffffffffffffffffffffffffffffffffffeffffee37", "0", "3", "fffffffffffffffffffffffe26f2fc170f69466a74defd8d", "1", "db4ff10ec057e9ae26b07d0280b7f4341da5d1b1eae06c7d", "9b2f2f6d9c5628a7844163d015be86344082aa88d95e2f9d"},
  {WS, "secp192r1", "fffffffffffffffffffffffffffffffeffffffffffffffff", "fffffffffffffffffffffffffffffffefffffffffffffffc", "64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1", "ffffffffffffffffffffffff99def836146bc9b1b4d22831", "1", "188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012", "7192b95ffc8da78631011ed6b24cdd573f977a11e794811"},
  {WS, "P192", "fffffffffffffffffffffffffffffffeffffffffffffffff", "fffffffffffffffffffffffffffffffefffffffffffffffc", "64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1", "ffffffffffffffffffffffff99def836146bc9b1b4d22831", "1", "188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012", "7192b95ffc8da78631011ed6b24cdd573f977a11e794811"},
  {WS, "brainpoolP192r1", "c302f41d932a36cda7a3463093d18db78fce476de1a86297", "6a91174076b1e0e19c39c031fe8685c1cae040e5c69a28ef", "469a28ef7c28cca3dc721d044f4496bcca7ef4146fbf25c9", "c302f41d932a36cda7a3462f9e9e916b5be8f1029ac4acc1", "1", "c0a0647eaab6a48753b033c56cb0f0900a2f5c4853375fd6", "14b690866abd5bb88b5f4828c1490002e6773fa2fa299b8f"},
  {WS, "brainpoolP192t1", "c302f41d932a36cda7a3463093d18db78fce476de1a86297", "c302f41d932a36cda7a3463093d18db78fce476de1a86294", "13d56ffaec78681e68f9deb43b35bec2fb68542e27897b79", "c302f41d932a36cda7a3462f9e9e916b5be8f1029ac4acc1", "1", "3ae9e58c82f63c30282e1fe7bbf43fa72c446af6f4618129", "97e2c5667c2223a902ab5ca449d0084b7e5b3de7ccc01c9"},
  {WS, "secp224k1", "fffffffffffffffffffffffffffffffffffffffffffffffeffffe56d", "0", "5", "10000000000000000000000000001dce8d2ec6184caf0a971769fb1f7", "1", "a1455b334df099df30fc28a169a467e9e47075a90f7e650eb6b7a45c", "7e089fed7fba344282cafbd6f7e319f7c0b0bd59e2ca4bdb556d61a5"},
  {WS, "secp224r1", "ffffffffffffffffffffffffffffffff000000000000000000000001", "fffffffffffffffffffffffffffffffefffffffffffffffffffffffe", "b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4", "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d", "1", "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21", "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34"},
  {WS, "P224", "ffffffffffffffffffffffffffffffff000000000000000000000001", "fffffffffffffffffffffffffffffffefffffffffffffffffffffffe", "b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4", "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d", "1", "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21", "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34"},
  {WS, "brainpoolP224r1", "d7c134aa264366862a18302575d1d787b09f075797da89f57ec8c0ff", "68a5e62ca9ce6c1c299803a6c1530b514e182ad8b0042a59cad29f43", "2580f63ccfe44138870713b1a92369e33e2135d266dbb372386c400b", "d7c134aa264366862a18302575d0fb98d116bc4b6ddebca3a5a7939f", "1", "d9029ad2c7e5cf4340823b2a87dc68c9e4ce3174c1e6efdee12c07d", "58aa56f772c0726f24c6b89e4ecdac24354b9e99caa3f6d3761402cd"},
  {WS, "brainpoolP224t1", "d7c134aa264366862a18302575d1d787b09f075797da89f57ec8c0ff", "d7c134aa264366862a18302575d1d787b09f075797da89f57ec8c0fc", "4b337d934104cd7bef271bf60ced1ed20da14c08b3bb64f18a60888d", "d7c134aa264366862a18302575d0fb98d116bc4b6ddebca3a5a7939f", "1", "6ab1e344ce25ff3896424e7ffe14762ecb49f8928ac0c76029b4d580", "374e9f5143e568cd23f3f4d7c0d4b1e41c8cc0d1c6abd5f1a46db4c"},
  {WS, "secp256k1", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0", "7", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "1", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"},
  {WS, "secp256r1", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", "1", "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"},
  {WS, "P256", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", "1", "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"},
  {WS, "brainpoolP256r1", "a9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5377", "7d5a0975fc2c3057eef67530417affe7fb8055c126dc5c6ce94a4b44f330b5d9", "26dc5c6ce94a4b44f330b5d9bbd77cbf958416295cf7e1ce6bccdc18ff8c07b6", "a9fb57dba1eea9bc3e660a909d838d718c397aa3b561a6f7901e0e82974856a7", "1", "8bd2aeb9cb7e57cb2c4b482ffc81b7afb9de27e1e3bd23c23a4453bd9ace3262", "547ef835c3dac4fd97f8461a14611dc9c27745132ded8e545c1d54c72f046997"},
  {WS, "brainpoolP256t1", "a9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5377", "a9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5374", "662c61c430d84ea4fe66a7733d0b76b7bf93ebc4af2f49256ae58101fee92b04", "a9fb57dba1eea9bc3e660a909d838d718c397aa3b561a6f7901e0e82974856a7", "1", "a3e8eb3cc1cfe7b7732213b23a656149afa142c47aafbc2b79a191562e1305f4", "2d996c823439c56d7f7b22e14644417e69bcb6de39d027001dabe8f35b25c9be"},
  {WS, "brainpoolP320r1", "d35e472036bc4fb7e13c785ed201e065f98fcfa6f6f40def4f92b9ec7893ec28fcd412b1f1b32e27", "3ee30b568fbab0f883ccebd46d3f3bb8a2a73513f5eb79da66190eb085ffa9f492f375a97d860eb4", "520883949dfdbc42d3ad198640688a6fe13f41349554b49acc31dccd884539816f5eb4ac8fb1f1a6", "d35e472036bc4fb7e13c785ed201e065f98fcfa5b68f12a32d482ec7ee8658e98691555b44c59311", "1", "43bd7e9afb53d8b85289bcc48ee5bfe6f20137d10a087eb6e7871e2a10a599c710af8d0d39e20611", "14fdd05545ec1cc8ab4093247f77275e0743ffed117182eaa9c77877aaac6ac7d35245d1692e8ee1"},
  {WS, "brainpoolP320t1", "d35e472036bc4fb7e13c785ed201e065f98fcfa6f6f40def4f92b9ec7893ec28fcd412b1f1b32e27", "d35e472036bc4fb7e13c785ed201e065f98fcfa6f6f40def4f92b9ec7893ec28fcd412b1f1b32e24", "a7f561e038eb1ed560b3d147db782013064c19f27ed27c6780aaf77fb8a547ceb5b4fef422340353", "d35e472036bc4fb7e13c785ed201e065f98fcfa5b68f12a32d482ec7ee8658e98691555b44c59311", "1", "925be9fb01afc6fb4d3e7d4990010f813408ab106c4f09cb7ee07868cc136fff3357f624a21bed52", "63ba3a7a27483ebf6671dbef7abb30ebee084e58a0b077ad42a5a0989d1ee71b1b9bc0455fb0d2c3"},
  {WS, "secp384r1", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc", "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef", "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973", "1", "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7", "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"},
  {WS, "P384", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc", "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef", "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973", "1", "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7", "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"},
  {WS, "brainpoolP384r1", "8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec53", "7bc382c63d8c150c3c72080ace05afa0c2bea28e4fb22787139165efba91f90f8aa5814a503ad4eb04a8c7dd22ce2826", "4a8c7dd22ce28268b39b55416f0447c2fb77de107dcd2a62e880ea53eeb62d57cb4390295dbc9943ab78696fa504c11", "8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b31f166e6cac0425a7cf3ab6af6b7fc3103b883202e9046565", "1", "1d1c64f068cf45ffa2a63a81b7c13f6b8847a3e77ef14fe3db7fcafe0cbd10e8e826e03436d646aaef87b2e247d4af1e", "8abe1d7520f9c2a45cb1eb8e95cfd55262b70b29feec5864e19c054ff99129280e4646217791811142820341263c5315"},
  {WS, "brainpoolP384t1", "8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec53", "8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec50", "7f519eada7bda81bd826dba647910f8c4b9346ed8ccdc64e4b1abd11756dce1d2074aa263b88805ced70355a33b471ee", "8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b31f166e6cac0425a7cf3ab6af6b7fc3103b883202e9046565", "1", "18de98b02db9a306f2afcd7235f72a819b80ab12ebd653172476fecd462aabffc4ff191b946a5f54d8d0aa2f418808cc", "25ab056962d30651a114afd2755ad336747f93475b7a1fca3b88f2b6a208ccfe469408584dc2b2912675bf5b9e582928"},
  {WS, "brainpoolP512r1", "aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f3", "7830a3318b603b89e2327145ac234cc594cbdd8d3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94ca", "3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94cadc083e67984050b75ebae5dd2809bd638016f723", "aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca70330870553e5c414ca92619418661197fac10471db1d381085ddaddb58796829ca90069", "1", "81aee4bdd82ed9645a21322e9c4c6a9385ed9f70b5d916c1b43b62eef4d0098eff3b1f78e2d0d48d50d1687b93b97d5f7c6d5047406a5e688b352209bcb9f822", "7dde385d566332ecc0eabfa9cf7822fdf209f70024a57b1aa000c55b881f8111b2dcde494a5f485e5bca4bd88a2763aed1ca2b2fa8f0540678cd1e0f3ad80892"},
  {WS, "brainpoolP512t1", "aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f3", "aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f0", "7cbbbcf9441cfab76e1890e46884eae321f70c0bcb4981527897504bec3e36a62bcdfa2304976540f6450085f2dae145c22553b465763689180ea2571867423e", "aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca70330870553e5c414ca92619418661197fac10471db1d381085ddaddb58796829ca90069", "1", "640ece5c12788717b9c1ba06cbc2a6feba85842458c56dde9db1758d39c0313d82ba51735cdb3ea499aa77a7d6943a64f7a3f25fe26f06b51baa2696fa9035da", "5b534bd595f5af0fa2c892376c84ace1bb4e3019b71634c01131159cae03cee9d9932184beef216bd71df2dadf86a627306ecff96dbb8bace198b61e00f8b332"},
  {WS, "secp521r1", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc", "51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409", "1", "c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66", "11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"},
  {WS, "P521", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc", "51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409", "1", "c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66", "11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"},
  {ED, "E-222", "3fffffffffffffffffffffffffffffffffffffffffffffffffffff8b", "1", "27166", "ffffffffffffffffffffffffffff70cbc95e932f802f31423598cbf", "4", "19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51", "1c"},
  {ED, "Curve1174", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7", "1", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffb61", "1fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971", "4", "37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda", "6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e"},
  {ED, "E-382", "3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff97", "1", "3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffef8e1", "fffffffffffffffffffffffffffffffffffffffffffffffd5fb21f21e95eee17c5e69281b102d2773e27e13fd3c9719", "4", "196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603", "11"},
  {ED, "Curve41417", "3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffef", "1", "e21", "7ffffffffffffffffffffffffffffffffffffffffffffffffffeb3cc92414cf706022b36f1c0338ad63cf181b0e71a5e106af79", "8", "1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595", "22"},
  {ED, "Ed448-Goldilocks", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "1", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffff6756", "3fffffffffffffffffffffffffffffffffffffffffffffffffffffff7cca23e9c44edb49aed63690216cc2728dc58f552378c292ab5844f3", "4", "297ea0ea2692ff1b4faff46098453a6a26adf733245f065c3c59d0709cecfa96147eaaf3932d94c63d96c170033f4ba0c7f0de840aed939f", "13"},
  {ED, "E-521", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "1", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa4331", "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd15b6c64746fc85f736b8af5e7ec53f04fbd8c4569a8f1f4540ea2435f5180d6b", "4", "752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c", "c"},
  {MO, "M-221", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffd", "1", "1c93a", "40000000000000000000000000015a08ed730e8a2f77f005042605b", "8", "4", "f7acdd2a4939571d1cef14eca37c228e61dbff10707dc6c08c5056d"},
  {MO, "Curve25519", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "1", "76d06", "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", "8", "9", "20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9"},
  {MO, "M-383", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff45", "1", "1f82fe", "10000000000000000000000000000000000000000000000006c79673ac36ba6e7a32576f7b1b249e46bbc225be9071d7", "8", "c", "1ec7ed04aaf834af310e304b2da0f328e7c165f0e8988abd3992861290f617aa1f1b2e7d0b6e332e969991b62555e77e"},
  {MO, "Curve383187", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff45", "1", "38251", "1000000000000000000000000000000000000000000000000e85a85287a1488acd41ae84b2b7030446f72088b00a0e21", "8", "5", "1eebe07dc1871896732b12d5504a32370471965c7a11f2c89865f855ab3cbd7c224e3620c31af3370788457dd5ce46df"},
  {MO, "M-511", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff45", "1", "81806", "100000000000000000000000000000000000000000000000000000000000000017b5feff30c7f5677ab2aeebd13779a2ac125042a6aa10bfa54c15bab76baf1b", "8", "5", "2fbdc0ad8530803d28fdbad354bb488d32399ac1cf8f6e01ee3f96389b90c809422b9429e8a43dbf49308ac4455940abe9f1dbca542093a895e30a64af056fa5"},
  {TE, "Ed25519", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffec", "52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3", "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", "8", "216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a", "6666666666666666666666666666666666666666666666666666666666666658"},
};
static const SsSize ss_sizes[] = {
  {20, "d341b", "119ad", 12},
  {20, "ec903", "13b6b", 12},
  {20, "967af", "3229", 48},
  {24, "9eff03", "d3feb", 12},
  {24, "e641f7", "99815", 24},
  {24, "a577b7", "6e4fd", 24},
  {31, "58e17813", "7681f57", 12},
  {31, "54e608d3", "7132b67", 12},
  {31, "6530c8f7", "167c9e7", 72},
  {32, "f3d8a1f3", "14520d7f", 12},
  {32, "a6eedd67", "6f49e8f", 24},
  {32, "abef553b", "2dd96c1", 60},
  {33, "1b5b98fe3", "247a2153", 12},
  {33, "165610fa3", "9ed5ce1", 36},
  {33, "1f1ab01a7", "14bc7567", 24},
  {40, "f617023193", "1481ead977", 12},
  {40, "a8d7b8461f", "1c23f40bb", 96},
  {40, "fffffeb70f", "555554e7b", 48},
  {48, "d7f6a5f40aa3", "11ff387f00e3", 12},
  {48, "8ddc2d0eb5bb", "bd259168f25", 12},
  {48, "ffffffface5f", "2aaaaaa9cd1", 96},
  {55, "5fae1d59e32a93", "7f92d1cd2ee37", 12},
  {55, "68b1f9bbcb80df", "1172fef4a1ead", 96},
  {55, "7fffffffff7f93", "aaaaaaaaa9ff7", 12},
  {56, "8f34162196dd83", "bef01d821e7cb", 12},
  {56, "ca9c36c3aa1073", "10e259e5a3815f", 12},
  {56, "ffffffffff52c7", "aaaaaaaaaa373", 24},
  {57, "1557eedf8541483", "1c753e7f5c570b", 12},
  {57, "117d59c7662ded7", "3e2f781a4edc3", 72},
  {57, "1fffffffffe80ab", "8888888888225", 60},
  {61, "17882d2c4a5d6943", "1f603c3b0dd1e1b", 12},
  {61, "127bc0809660bdcf", "629402adccae9f", 48},
  {61, "1fffffffffffe3cb", "e38e38e38e381b", 36},
  {62, "3e4d037dc5fecdc3", "531159fd07fe67b", 12},
  {62, "2c104c9c7765367b", "bc0146dfdb4971", 60},
  {62, "3ffffffffffd19cf", "1555555555545df", 48},
  {63, "77adc61134702c5b", "9f925d6c45eae5d", 12},
  {63, "4dd70490dd5fbf9f", "cf92b6d7a3a9ff", 96},
  {63, "7fffffffffff7003", "aaaaaaaaaaa9eab", 12},
  {64, "b61d7ea60fb22f03", "f2d1fe32bf983eb", 12},
  {64, "8d833bde6c00e24b", "bcaefa7de556831", 12},
  {64, "ffffffffffff7a4b", "1555555555554a31", 12},
  {65, "115bed3848156fa6b", "17253c4b0ac73f89", 12},
  {65, "122b30022c6505a1f", "30732ab07662b9b", 96},
  {65, "1fffffffffffff3f7", "15555555555554d5", 24},
  {66, "353839ba4afdadbf3", "46f5a24db9523cff", 12},
  {66, "2eb07187e62fbb4b7", "a60193aa4ee299f", 72},
  {66, "3ffffffffffffe123", "55555555555552c3", 12},
  {70, "24906120391643e403", "30c081804c1dafdab", 12},
  {70, "29dbeae11f2f2e98cf", "df3f8f5b50fba32f", 48},
  {70, "3ffffffffffffdaf6f", "155555555555548fd", 48},
  {72, "eff3982e6e979905a3", "13fef75933e1f76b23", 12},
  {72, "9b9df28296f8fba73b", "297f73de8ea8cba41", 60},
  {72, "fffffffffffffdb20f", "5555555555555490b", 48},
  {73, "1279a2f375a69d43aab", "18a22e99f2337c5a39", 12},
  {73, "137825a36319454f003", "5311b1a80d389f2ef", 60},
  {73, "1ffffffffffffffbe0f", "aaaaaaaaaaaaaa94b", 48},
  {80, "de36b534dfdc8d56042b", "12848f19bd52611c8059", 12},
  {80, "dc42ffd66c8c80c4b4bb", "3abc887d724799ce0e1", 60},
  {80, "fffffffffffffffe47df", "2aaaaaaaaaaaaaaa615", 96},
  {95, "68dceb04cd6d0210a56a8b6b", "8bd1395bbc91581631e3649", 12},
  {95, "7073133ec46914acad2c3403", "95eec453b08c1b90e6e59ab", 12},
  {95, "7fffffffffffffffffffb80f", "2aaaaaaaaaaaaaaaaaaa92b", 48},
  {96, "a23bbcde67ab2089feec047b", "d84fa67ddf8ed60d53e55b5", 12},
  {96, "9f332a69c083ec21f4b2f6fb", "d444388d00afe5829b99495", 12},
  {96, "ffffffffffffffffffffd4ab", "1555555555555555555551b9", 12},
  {97, "1a6c59e7cb65dc11970f22c73", "233b228a6487d01774142e5f", 12},
  {97, "14fc87c621f38da634dde7d1f", "37f6bf65afdecf108cfa6a3", 96},
  {97, "1ffffffffffffffffffff88c3", "2aaaaaaaaaaaaaaaaaaaa0bb", 12},
  {112, "ba74b7569ccba18c0c2049fa481b", "f89b9f1e2664d765658062a30ad", 12},
  {112, "a777bbe6d0ec56735825b747befb", "df4a4fde6be5c899cadcf45fa95", 12},
  {112, "ffffffffffffffffffffffff4ecb", "1555555555555555555555554691", 12},
  {120, "db2b79a1abaf1cc8b3ad2bbe8fd813", "12439f7823a3ed10b9a3c3a536a757", 12},
  {120, "c03472370955d2a59302b24b329afb", "33412f86249f6b5f5a671e7a73e51", 60},
  {120, "fffffffffffffffffffffffffdd42f", "555555555555555555555555549c1", 48},
  {126, "3c568d6aed4104cf1f3a2dd99e13d3a3", "507367393c56b11429a2e7ccd2c51a3", 12},
  {126, "33320896db9bc6d83e11d78ce7312447", "22215b0f3d12849029613a5def76183", 24},
  {126, "3ffffffffffffffffffffffffffef723", "1111111111111111111111111110ca7", 60},
  {127, "6f3040888c45b33ccf172f0f7035dc63", "9440560b65b24451141ee969eaf27b3", 12},
  {127, "77a9866c2e9ae2cb7326b1b042458b07", "4fc6599d746741dcf76f21202c2e5cb", 24},
  {127, "7ffffffffffffffffffffffffffcfd1b", "2222222222222222222222222221549", 60},
  {128, "b9ea47776e325ada978d53ae1a850e93", "f7e309f492edce78ca11c4e8235c137", 12},
  {128, "eab849ee3d2ed23a72a0862c10033e87", "9c7adbf428c9e17c4c6b041d600229b", 24},
  {128, "fffffffffffffffffffffffffffc9deb", "44444444444444444444444444435d5", 60},
  {129, "12e5a5893670cf2d9157b8ef8e928e3cb", "1932320c48966992171fa13f68c36851", 12},
  {129, "1fe4acd4b317733e150973a1982bd048b", "8813f27a73974108e24a75e4ab659ad", 60},
  {129, "1fffffffffffffffffffffffffffe47ab", "e38e38e38e38e38e38e38e38e38d753", 36},
  {130, "3620a723ae63f774537b915fc519b179b", "482b8984e88549f06f4f6c7fb177974d", 12},
  {130, "35396625b54c992d21cf2c560df95a703", "46f732dcf1bb76e6d7bee5c812a1cdeb", 12},
  {130, "3fffffffffffffffffffffffffffd9e77", "e38e38e38e38e38e38e38e38e38db17", 72},
  {136, "cffab7105ba0a245131244c63b8252cd23", "1154e496b24d62db16ec3065da4adc3bc3", 12},
  {136, "ab984e155d65d1bd4f8f4f0e3d3ff5237b", "e4cb12c727326cfc6a14696851aa9c2f5", 12},
  {136, "fffffffffffffffffffffffffffffd7e67", "38e38e38e38e38e38e38e38e38e38daa5", 72},
  {144, "fcff4c67c3787c2b9bf3f8d8dfd3d3a5d45b", "1515465dfaf4b503a25454bcbd51a6f87c5d", 12},
  {144, "842ddf48adde659755cb8daa315057a65c9f", "1607a536c7a510ee8e4c979c5d8d63f10f7", 96},
  {144, "fffffffffffffffffffffffffffffffd8467", "38e38e38e38e38e38e38e38e38e38e38565", 72},
  {160, "b40f43557ac6553738aead840f53196f44f2466b", "f01459c74e5dc6f44b93920569c421e9b143089", 12},
  {160, "fd9f30c2ad47b1e9447e2bca02670b3c76734917", "a914cb2c738521462da97286ac44b2284ef7861", 24},
  {160, "fffffffffffffffffffffffffffffffffffc6e27", "38e38e38e38e38e38e38e38e38e38e38e38d6dd", 72},
  {161, "14386bed2b0059476d4fb1828f888ede3ca3435d3", "1af5e53c3955cc5f3c6a42036a0b692850d9af27", 12},
  {161, "17435c30712b85f09ebdb6d98f508cbfd6f628683", "1f047aeb418f5d40d3a79e7769c0bbaa73f2e08b", 12},
  {161, "1fffffffffffffffffffffffffffffffffffe813b", "e38e38e38e38e38e38e38e38e38e38e38e38397", 36},
  {176, "c234e4f87a34974fb84881abc579e17f2e0a23bbf73b", "102f1314b4d9b746a4b0b578fb1f7d7543d62da4ff45", 12},
  {176, "d3b6b01c058f495446c88847e982bcc2b8994fca6f17", "2f0c2722abe6f3d9d6d73abaa5ab466429059ff418b", 72},
  {176, "fffffffffffffffffffffffffffffffffffffffff06b", "15555555555555555555555555555555555555555409", 12},
  {190, "2c5c8faf6b188b95714904a4cccb174552a45fc204360653", "3b2614e9e420ba1c970c0631110ec9b1c385d502b048087", 12},
  {190, "21f949952914ebf8686a486da1bf35578edeac6a1c0e65af", "b5318870db1a3fd78236d79e09511c7da4a3978b404cc9", 48},
  {190, "3ffffffffffffffffffffffffffffffffffffffffffef8df", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa7ed", 96},
  {191, "53cdfa1fa6def78dda21e8ae2f54611829b47e0875d38993", "6fbd4d7f89294a12782d363d947081758cf0a80b47c4b77", 12},
  {191, "528f0694aaafee837da81b01e6dc0cc2aa8a5248d34431f7", "370a04631c7549acfe7012014492b32c71b18c308cd8215", 24},
  {191, "7ffffffffffffffffffffffffffffffffffffffffffde9c7", "1c71c71c71c71c71c71c71c71c71c71c71c71c71c71bfb1", 72},
  {192, "83d4e359cb0196b322ee023ac56556b5dfc65a1e5ffaad13", "afc68477b957739983e802f90731c8f27fb322d32aa3917", 12},
  {192, "ba450748f5c59273b60fc0382bbb538ead874cda0a0050df", "1f0b8136d3a0edbdf3ad4ab40749e34272413779ac5562d", 96},
  {192, "ffffffffffffffffffffffffffffffffffffffffffff1ae7", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa11f", 24},
  {193, "1d8150e0430d7010ee73cbd3c659359aada3ed87fbcae047b", "275716805967401693450fc50876f223922fe75ffa63d5b5", 12},
  {193, "1c0d84ff625e35a13b1114750d22a40e5a1a039237a042dd3", "25675bff2dd2f22c4ec1709c118385687822af6d9f805927", 12},
  {193, "1ffffffffffffffffffffffffffffffffffffffffffff7717", "71c71c71c71c71c71c71c71c71c71c71c71c71c71c71a8b", 72},
  {200, "bc447ea40bc129932fc2bf0ec9bd9975adc2eb3080839f9763", "fb05fe300fac376eea58febe625221f23d03e440ab5a2a1f3", 12},
  {200, "c45c3d158bbb294342fbff82efcbaa143e42c44096cefc943b", "105d051720fa43704594fff593fba381afdae5b00c913fb705", 12},
  {200, "d64649bd6a94c7c0ab8ffd4b8f9b70733927bd7d08ab1d9647", "2f9dd77f6d049e2ad0caaa10ca9451e0b75e2a1bc90994cc1", 72},
  {208, "86a85c32c14ba00e20240d8f515f18c141bb305244650c9cc3db", "b38b259901ba2abd803012146c7ecbac57a4406db086bb7bafd", 12},
  {208, "b5aff56760d2d28f1c3e1d97b1d9144391b52f8ad8c160077a73", "3073305fd58d8d7b7eff7f5ba6e48defe296b75839cd2aaca93", 60},
  {208, "fffffffffffffffffffffffffffffffffffffffffffffffff5db", "444444444444444444444444444444444444444444444444419", 60},
  {224, "de128fe7fd07f236ef051815d8e5883bfa0003166dec556dcbb93b0b", "12818bfdffc0a98493eb175727687604ff800041de7e5c73d0fa1a41", 12},
  {224, "8aaab650eece6f25643cc4f473ade31415f70ffbccc896fd471337b3", "b8e39dc13e689431dafbb145ef92841ac7f4154fbbb61ea7096ef4f", 12},
  {224, "ffffffffffffffffffffffffffffffffffffffffffffffffffff1c2b", "71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c6b73", 36},
  {225, "15bc2366e0ff18fd6e69721aa91bb4e365d192fe8d5ccd15ef8228513", "1cfad9de81542151e88c98238c24f12f326cc3fe11d1117294ad8b17", 12},
  {225, "1a54d55c4337bbdf61f7aaceec4be5eb2299b2a5ac59bd001bcbe0a2b", "7058e3abc97654ca2a871d0c78bb4c73c6d40b4b67e54888ff219c5", 60},
  {225, "1fffffffffffffffffffffffffffffffffffffffffffffffffffec497", "15555555555555555555555555555555555555555555555555554831", 24},
  {248, "b1442ca49a59d5d9e50aceb15a0883d4c59fdbcf5d5558dc2e352d63d25fcb", "ec5ae630cdcd1d2286b9139722b6051bb22a7a69d1c7212592f191da6dd51", 12},
  {248, "d856d609d9f04f77b59eccfd260c5fe55227c963705a1cb216be6ff3be5c37", "9039e406914adfa523bf33536eb2ea98e16fdb97a03c1321647ef54d2992d", 24},
  {248, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffc83ab", "4444444444444444444444444444444444444444444444444444444443565", 60},
  {254, "369f027a50d678a580883123fe9ac08740745e08fc1423c2885c1ab75b54e833", "48d4034dc11df63200b596daa8ce5609ab45d2b6a5702fae0b2578f479c68af", 12},
  {254, "32d8994fd2a6455151dd2e6a2d8a84e9244653dca5e8fc033bfd2ace8dcc0da7", "21e5bb8a8c6ed8e0e13e1ef173b1adf0c2d98d3dc3f0a80227fe1c89b3dd5e7", 24},
  {254, "3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffff8f4b", "555555555555555555555555555555555555555555555555555555555554bf1", 12},
  {255, "405beb31a806ebb34dec0099818b2df88ed94d663a86f876b9434e7a6ca9684b", "55cfe442355e8f99bd3aab7757643d4b6921bc884e094b48f70468a33b8c8b1", 12},
  {255, "7ff8e11528fabcdd243948fd96e5ecfc80b99859208e61a4c7105b94adf2b2fb", "aaa12c1c36a3a67c304c61521e87e6a600f775cc2b688231096b24c63d43995", 12},
  {255, "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdb55f", "155555555555555555555555555555555555555555555555555555555554f39", 96},
  {256, "be1b306d7ec3023c3bdc4583a18de6666515b1e95dd0de2ef2f77328f265f193", "fd7995e753aeada5a525b204d767dddddc1ced3727c1283e9949eee14332977", 12},
  {256, "d9dda781113a85fdcf26dce9eda1ba6e60efde304ec8f7b38e99ffb395aacb27", "306a25392045e4e31196dbc234ce9b34f918dc0abc2ca8d291778e27e85ed7d", 72},
  {256, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeef5b", "444444444444444444444444444444444444444444444444444444444443fb9", 60},
  {257, "19a4081d33677d41bc62ce5f1fd416ec576bdf17e4454964b4ede7acef26b740b", "22300ad199df51acfb2e687ed51ac93b1f3a7eca85b1b730f13d34e694339f01", 12},
  {257, "1917e46548d934a8676a5360858ae607438541f3d5ea6f47f2906598d91f19cfb", "6b109b49bf5a7a45fd8163bdf583d5745349a1ee3b5fb8aa715706d06b2f5d1", 60},
  {257, "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff9d9f", "55555555555555555555555555555555555555555555555555555555555544f", 96},
  {258, "2e9db4b6100116fce59eab1652e1ec4803517d7a89b14c8328d8dd6c92b340d1b", "3e279b9d6aac1ea6877e3973192d3b0aaf1751f8b79710aee121273b6e44566d", 12},
  {258, "25fdb7cd775d030c440920cfb8ef675c0f43b190e892bc5863e31bda54d0a923b", "a218658eca156256779e69dcaea81f66a78739e1be2dce45ee73aa09f269381", 60},
  {258, "32b175a058f2ecd7b4b28918762a82d5d10376a7b090f1535c18c0e0cfdb4d793", "4397478076993bca46436175f2e3591d16af48df96169719d021012bbfcf11f7", 12},
  {264, "a15bc955f6e473af028b0185644319ccd408a3151301908324563a18556d7c745b", "d7250c729e85ef9403640207305977bbc560d9716eacc0aedb1da2cb1c91fb45d", 12},
  {264, "f3ca6a80ec92a61bb5b02803b703bd4ee29b931b0dee11d25fa7886acdf0a0fe0b", "4102c71150271b3a96d9a44541dedd261a4b9eb1e194d18d6ed75793f2a69154d", 60},
  {264, "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffafa3", "155555555555555555555555555555555555555555555555555555555555554ea3", 12},
  {272, "d28934aa279fae8e819bbc4908c410d4f930e7a84ecb59d4cbdc42de71506d24e72b", "118b6f0e2df7f9368accfa5b6b65ac11bf6ebdf8b13b9cd1bba7b03d341c09186899", 12},
  {272, "a25f1c11afe650767bcc3205e26bfcab7a736a8b0729a04a8b9acb525e9e3c04214b", "2b4c9004b7709dfd765895df6f944360ed741c69573e4ce0adc2e0e2c3e5eddef7d", 60},
  {272, "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffe0db", "155555555555555555555555555555555555555555555555555555555555555552bd", 12},
  {320, "c40864b62d2243e6e8c9fd083d62fe0d60d9c588a8dae15e1b2adc4b3f66f34d8f6d07c1e0093463", "1056086483c2dafde8bb7fc0afc83fd672bcd0760e123d728243925b9a9de99bcbf3c0a57d5619b3", 12},
  {320, "a8adf25425e60819dd3afaf1f043abe960d48218965e246a12c028db7d38699c5e1a1e99efd88477", "7073f6e2c3eeb0113e2751f6a02d1d46408dac10643ec2f161d57092537af112e966bf114a90585", 24},
  {320, "f4c333e675698f7528b24345870372ca0d09fc1cbb3821254c525e2756cc6044dcc1b102cd52c5e3", "146599a889c8cbf46e0edaf075eaf43b81162a57ba44ad6dc65c3283473bb2b067bacec03bc6e5d3", 12},
  {321, "135dfff699aec9046af4b586a76c0e48ecb692d7a998c3e250f0267e2e7c2e84b3a8b8f4343657ab3", "19d2aa9e223e615b3946475e3490130be648c3ca37765a83169588a83dfae8b0ef8ba1459af31f8f", 12},
  {321, "17771acece38906e899c557ed6088a82a09e71d6920244fa63f4232336e3b225e39cf149be6beff73", "1f497913bda0c0936225c753c80b6358d62897c8c2adb14dda9ad984492f983284d141b7a88fea9f", 12},
  {321, "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff2cb3", "8888888888888888888888888888888888888888888888888888888888888888888888888888503", 60},
  {377, "1133c86b08dd08c8e8173c91714fa9b10376cdc2d5925d13d4d508135f705d010e40f2f06469a5c1418f642a177db93", "16efb5e40bd1610be01efb6c9714e24159f3bd03c76dd16fc6716019d495d156bdabee95db3787ac5769dae2c9fcf7", 12},
  {377, "1ce6973243e848b81c18c0406bbb1215a7aee656b507b69bb0d34ef436dec9f750b9d470939fb01745c71eda6dcacf3", "2688c9985a8b0ba0257655ab3a4ec2c78a3e88739c0a48cf966f13f049290d49c0f7c5eb6f7f95745d097e789263bf", 12},
  {377, "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffec6ef", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa425", 48},
  {383, "5dc876aa2d8e75163d90d3ed35b676fcc2b44c41db4a39ec7abfe94a548ad8b8bdfc15d7601ed33862b35a21a3a6c9a3", "7d0b48e2e7689c1da76bc53c479df3fbae45bb0279b84d3b4e55370dc60e764ba7fac7c9d57e6ef5d8ef22d784de623", 12},
  {383, "59202ce597061c3e5e7beb8fd9c4351df9c9756e3f56ce5cd3a2fee1ff0033be7acb00b8a65479f888cce8fe1187932f", "1db5644c87acb414ca294e854896bc5f53432724bfc79a1ef13654f5ffaabbea28ee5592e21c28a82d99a2ff5b2d311", 48},
  {383, "4254a17527c5c7f65a3e5e8506b204c7a7c3b917f29e24ad8fc71ff421a963d6360c9893d732c8f813d497710543c603", "5870d746dfb25ff322fdd35c08ed5bb4dfafa175437d863cbfb42a9ad78c851d9d6620c51eee614ac51b7496b1afb2b", 12},
  {384, "841fd2c77915d9bf09a9419cd4b795b9d2104ec1d18a909c9996ebb1f8c374327ce517805779988b270554782ddb5013", "b02a6e5f4c1d22540ce1acd11b9f724d1815be57c20e1626221e8f97f659f043513174ab1f4ccb6434071b4ae7cf157", 12},
  {384, "bdb70bf42706802a078c5fa0601162ec4259703287fd0cd77d13fdb56f3191f6681fdbe5f26621c41be8aa89a7edf7b7", "2a28ad52b356c725c8c9dc5c87204edf2b3051d2571bc9f6ff59c69a18b5aea888eaa2a4e08879480633b41e97186ff", 72},
  {384, "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdfc7", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa953", 24},
  {385, "1b654cfc8715ec624986a00faa19c8e7acd1615543f2e94ee7c6bbf3ad5d7c01ddb57d66b4ada7e270778641a39461e1b", "24871150b41d3b2db75e2abf8d77b68a3bc1d71c5a993713dfb3a544e72750027cf1fc88f0e78a83409f5dacda1b2d2d", 12},
  {385, "19af05ae6565fad705682a0cff8dae5fe451729bfc05c7484119642c37382c1f17d4c17111805780dc5508a221a1927db", "223eb23ddc87f91eb1e0381154bce87fdb17437aa55d09b5ac21dae59ef59029751bac96c20074abd07160d82cd76dfd", 12},
  {385, "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa8a3", "2aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa363", 12},
  {400, "90a8536b2f8eb1b3f17765bb26996e416f6150a5b92dcd90e7e9e03ce7d018d83a2c70c11bdd5e6e92166558424cc486d0ab", "c0e06f3994be424541f487a433773dac9481c0dcf6e7bcc13537d5a68a6acbcaf83b41017a7c7de8c2c8872058665b5e6b9", 12},
  {400, "c51903638dbc0d3b654ec59963d98b0cfee7e322b62a560e96f4ddde5bcd25f076fd53e894fd20a992f86b07947dc7c40543", "579956d6e9a8e96fbb3f74442c60af93ff838164c2bd7b94b4de9b7f453ebb875154254aece24767cf8ada3c41ff0373909", 36},
  {400, "c0740c76e63cba0b9043d68e848b65edc72b05c4f9b19e9a3c64731a7ab16957c401c39ba3431458502c785da670d09ed44b", "1009abb4932fba2ba15afc8be060f32925ee407b14cecd3785085eecdf8ec8c750557af7a2f041b206ae5f5d2334116291b1", 12},
  {448, "de8b887ccc90a8e0fe3a6bf76f265be40cdb10a76c746396fa664fbcd3f37716962a08f326fbf53da33a892427893eb5ccc7184ca28e8b8b", "128ba0b5110c0e12bfda33a9f3eddcfdabbcec0df3b45da1ea33314fbc5449ec8c8380beedea546fcd9a361858a0c539d110975bb8368ba1", 12},
  {448, "f2a2fdacdbd3bec0e6f6c0064e801a6f909790306f857a49504bf42aadccf050cb8dba61789a611a1cb2bf3e6f688ec01b38f98f2bcaf34f", "50e0ff399e9bea404cfceaacc4d55e25303285657a81d36dc56ea6b8e499a57043d9e8cb283375b35ee63fbf7a782f955e68532fb943a67", 48},
  {448, "de861bdb9e67e9ef6e38c12f2a15d450bef603ddfedaaddc88a24f8d2e72ba6dd9ed892ef665730ee93de68d7796bd2d32f0816ac83eb64b", "3b56f65cb2c660841d6477c84f7d49af21db343b32e4fb29be092647c81e981d4b2e46b730a396261c1081bf5317216162eacd2d8abb63d", 60},
  {511, "651a358643f32aaff37368497b7eee74c62d48d4229ac985c76cb01bae16912824f139c44192846530a76ce37582fa46b7403261accef61d4054a3d51e520d33", "86cd9cb3054438ea99ef35b74f53e89bb2e70bc583790cb25f3b957a3d736c358696f7b0576e05dc40df3bd9f203f85e49aaedd79113f2d1ab1b851c286d66f", 12},
  {511, "5c4929303ebd6a88a14323e40e5c34beaf1ef8826ba64a4578680b21c2a1d90920e96e86674434e5ade6dfb2ba092114c0c07b6f41274925eab83819d4729f77", "148209272a62fb3ace80b2a474f80bb898b18c8ec296bb2be1de3b5cd5eb13c923c2188fa52b99fa26a5154429575caf474737dfd596f3cf897e455b12c4237", 72},
  {511, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa333", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2ef", 12},
  {512, "e6fc940aef0710fb9dc6154685af7f0052c08668da5fcbc51924c3da60e9d00cedbd1024ae6f4cc7e5b97fa25b166406434cb546ed87c67994e7efe3f2d18b33", "133fb700e94096bfa27b2c708b23f54006e56088bcdd50fb176dbafcdd68d156692516adb933f110a87a1ff83241ddab3046647093cb508a21bdfea8543c20ef", 12},
  {512, "d1ea033d277d427e918801afdada472d21c98fb1c8b19da966095bf5498c34dc83efd16c2136e4896a4dcb74b4126d1c2a792ec68975ff8f42173ff3ba102227", "8bf1577e1a5381a9b65aabca91e6da1e16865fcbdb2113c644063d4e3108233dad4a8b9d6b79edb0f189324dcd619e12c6fb74845ba3ffb4d6ba2aa27c0ac17", 24},
  {512, "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffba83", "71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c6fd9", 36},
  {513, "1ca0e8b9c744ab9681c2e3792c87105d78bfa7b3c9ca28146e2a6a5d691462a43e61c99fade898c1a1c8a24cad6a297b38fb3d81ada3dfc7db997c48514fda513", "262be0f7b45b8f7357ae84a190b415d1f654df9a6262e01b3d8de32736c5d8dafdd7b77f928b76578260d8663c8d8ca44bf9a757922fd50a7a21fb0b17152317", 12},
  {513, "1180f194e2a79907712688e6e098feb31d48429dfa07f2c77322d62dae398fe7773e487bd840f23584885ed95317b04b81f7599aa7ce933796eb7379dbfc01f5f", "2ead2ee25c699813d866c267ac42a732f8c0b1a5456a876933079079d0997fbe9350c14a40ad308eb6c0fcee32e9d61eafe8eef1bf7c333ee7c933ef9ff55a9", 96},
  {513, "1ed3e4a70d3e8ec04d2ad120ef40e06c47ad7f76548f04dca32fae56c1d21cd811c848ab91e900562ac412b78fe21934e0c3c866b0b5f429b8e3111b37e79cf83", "291a863411a8be55bc3916d6945680905f91ff4870beb1262eea3dc9026d7bcac26060e4c28c0072e3b018f4bfd8219bd65a6088eb9d458cf68416cef534d14b", 12},
  {520, "9bcda99ef3cb0a44a7813e34cc831503aecd64d1513ddf729d92a2d973c1d73010b35bdbf1f061cdb73191c5dc4d0ec3c2a753ecd149755409c20d384f03d51c6b", "cfbce229450eb85b8a01a84666041c04e911dbc1c1a7d498d218d921efad1eeac0ef25254295d7bcf44217b27b1169050389c53bc1b7471ab7ad66f5beafc6d09", 12},
  {520, "fe9791cf16fc9fa23bc4f595a9bb3bdf17b69c034002adb0639993dd7aa64d0b032a7cc0824ae915c821541640c9b721d5de55e5de81adf7db2e6573a892e7d2c7", "a9ba6134b9fdbfc17d2df90e71277d3f652468022aac73caed110d3e51c4335cacc6fdd5ac31f0b93016380ed5dbcf6be3e98e993f011ea53cc998f7c5b745373", 24},
  {520, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffe2163", "71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71c71b9d1", 36},
  {521, "1a2c346270cc96e406df7db8f17dfdf76bd119024c0a2b0e41652eeb93e98574b3d53ab5ea178def66735dd6d54e95ddc6044751a6ceaadfb6228b712d7ec961e3b", "22e59b2debbb73dab3d4a7a141fd529f3a6c21586562e41301dc3e8f6fe20746451c4e47e2ca12948899d273c713727d0805b46cde68e3d4f2d8b9ec3ca90c8285", 12},
  {521, "1a26a2af49f280d94f1bc6933eb2b5550b59450ec46b0dfbcc06833c48a3244970f257183940701095adefcd2329c267649eaab14461a598d6d4f644bc675f70e1f", "45bc5c7e1a86acee284a1188a731e38d7398b827611d7a9f7566b34b6c5db6192d30e84098abd5818f252a23086f5bbe61a71c83610464423ce290b74bbe53d7b", 96},
  {521, "144e921f5a582c0373c8e79cb16a6cfdf1548d3aa893fca098b665a5d93b3cd2ef6687bba0fe7013ee0e48da4272518a860c9c87b3eb2b977e644e88df427fcbcfb", "56a49196d6cd88974359318b7d81d10849f14982cf4435e06970a0a17cb87afb74e8a986f32c88dd914e03a33da37e0ac47a135410b831754e78c68c411bbadd1", 60},
  {522, "2b53f59ef9981164024555ca2f4163339dce33dfd43a63ed8bee0fdd2bb132c28097c7686e31a78f1a64d014942f02a4e9c4ddc6ad6d76310db244a8f048a8819a3", "39c5477ea220173003071d0d94572eef7d12efd51af8853cba92bfd18f96ee58ab7509e092ecdf6978866ac61ae958dbe25bd25e3c91f2ec1243063695b6360223", 12},
  {522, "3cfd1609f26580e024a7d3e139293b5aad4d44eef0fbf5c30e171f4f6cd007f3d0252dacbed4099464fd3e53e4648ff0b4d22308812c552de29b7a908d5d762199f", "a2a2e56fdbb957ab0c6a350343189e472378b7d2829fe4b2d03da8d3ccd56a8a2b0dcf21fce0198bb7f8a6350bb6d52c8cdb0816adcb8dcfb19e9c2c23a3e5aef", 96},
  {522, "3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffafa3", "5555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555555554ea3", 12},
  {576, "82f987d20e3b7e1c1b7465a138c0a6f0c26270cfdafacf8a7dd2a0c4de0ced5cbf3cf4d2a240dba6a2907e7fb72f6adb5e619a2cd18a1238798ed5e8b36c270abc18b04eabfa7f33", "aea20a6d684f52d0249b322c4bab8941032debbfcea3bf63526e2bb128113c7ba9a69bc3830124de2e15fdff9ee9e3cf288222e66cb8184b4cbe728b99e58963a5764068e54dfef", 12},
  {576, "de0e58854aa6232a604f0ebaf66c8da9892ddd16d5e898a6eb90e81a7b564493f1ba1904fdf4b0fc5673c6418ada51eb906c375d107da202c6abcbb50d9c637bfa20fc1b9456e443", "62b10ae5e849d6bd802322fdc2dae9a0aebf0cedb467604a2fcea00bc509e5971619d23b1b89323742de1f39930bb2a195856df0791b647302f70534060c9dfe36478c7e090a2c9", 36},
  {576, "d00497d96896e6e5c7f12576dfff5797d215ead87d6411f879d1ac42f65f2dc7dad5c19891b0e27b24333e92d432140c5897920925da1f36bfd6138ebaec30ba7902935a0e994f8f", "4556dd4878324cf742a5b7279fffc7dd46074e4829cc05fd7df08ec0fcca6497f39c95dd85e5a0d3b6bbbf8646bb5c041d87db5861f35fbcea9cb12f93a4103e2856311e04ddc53", 48},
  {640, "91c8909728aa9431c18fcac51fb2234790524dcf35d367b909dd6c577196782077602b0014e1a866d2bf61df420a99358fe70f2bc6767c92087d2a10c0faea4d82c7fd11aefe2bf1107907b7a4752a03", "c260c0c98b8e1aed02150e5c2a42d9b4c06dbd1447c48a4c0d273b1f421df5809f2ae4001bd78b33c3a9d7d4580e219cbfdebee5089dfb6d60a6e2c1014e8dbcae5ffc1793fd8fec15f6b4f4db46e2b", 12},
  {640, "f56c90325dda66c3748e08a14674b748297ec5b7d0a1d84e6c6c41eae5465d21918805bfd67cb130f7f0852e763ef9517298970f233ae6c33b8b356000e5a9ee6f5a5d33e88572ee994e0c56b7b5c06b", "6d13ce4f46282dac33cd592b3bc21891d98dad354047ee5bbe6900da2d02d40eeb58e61c5f53dcf951c03b31181bfd07c1275f94f3369f7336e88980006612a2dc28296c6757c14d9978057bdfdf003", 36},
  {640, "dfb471a803a3e3fd09b6f72dac9e9bfca1590ed1a4e5bce2eb28c06ce9f100e06534a90b70b4147ea3fe82ab70e411e0c0fb4e00b46cbcd97e0c3123168206da3d615c8aecef13afab9bac0b1c18fd7b", "3ba795c6675ee776ad41db83a57fa1102b06ae9e4e1b214d940addfae90d114ce7c9c6adb7a77cee9221bc71fbf88d4d004303bbebd8bae4aa25626fc1bc4618105e3acfb6a627620ba0faada117bb1", 60},
};
