//! fixed RSA and DH test material (made with the openssl command line)
#![allow(dead_code)]
pub struct RsaKey { pub bits: usize, pub n: &'static str, pub e: &'static str, pub d: &'static str, pub p: &'static str, pub q: &'static str, pub dp: &'static str, pub dq: &'static str, pub qi: &'static str }
pub const RSA: &[RsaKey] = &[
    RsaKey { bits: 1024, n: "c00e50b97d1a254636c710410f40919fe1844114387ae9fb0f372b97f5dd405d211baf4fe46b7ec7f484fe7ff667c5479fb088639ce082e0dbce2d3b751c1d2d99fb5d6c2b93d77528e8bf110ce8611c6b01b1e8e1d38777ca072025c33a343bc9c1234e296359ba686a387edd05dc2741c2c72a8b57ede5808d543d9a090a1f", e: "010001", d: "3a445d9358f414b8efa78733e5d7b616a689c460c91de95ce4e9dd0cf667d0be306c40cce14507aacc7188f0f3a5da0177de4c12c4a68cae81a154b1c43eea4ec3bceac11fe8c35fabddd75bd5a9f0d80661336fce534f4d7b886bc30be722a8f285333a5f71e327cd081a6aff4c90bb1eccf7ae6ff5c6d95e5815c7b0fd9961", p: "e9ad32f44ecf6830110ab6d2760b3b7befd8bb081bcd4042bf4e876824c41e0f315040664e129bc5f05afeabff1b4d386b69a96ad6361fae352cf8c7b9722c8f", q: "d2673d9cffc6da002e71abacd3d821c710c7fd6491812d8956b66423953d7e09d1210cbaf05cfa8cdbdec52f5403aa31addaa60ab2b223ecd57f3b0e60243171", dp: "bda363d0c50ca95f28d56b1d4dd33bc90f12f2665839b046fafe7e0154a51c47f41b4ec837dffe2f1b2a9db773e6f23a3161a4ae217df723e7dfc15e44ef959d", dq: "2c24c902858f7cf188cd048dd02c8a79af85a61e5180dec2efd47892169fbe2fe516a00b209f015a484f26e3d526a7b0a09f3d330566e6aeabe473c9825655a1", qi: "8ad35f778b454907e32bef6ba82f076093b522a99a8d80f4ba142c6eadcdd284f801c4925fea8b966280cee805a3ae4549d28f1d44fa92cb0709fec956be812c" },
    RsaKey { bits: 1031, n: "6afc159031b2b587d127a4813256270c93a938d9cd614687dbb4a65ce306f8ca8d34f04731cbcc1a943068dd925f70d8ff52dee5db38af890b086f63543baa3245f265bd1281f7314b7d29d5f721be660b58ad5ed600fbd17baf308458f7401f59cf96e7c2f89d9f15ede1bd5bb5a2af16a637883f32d823d38e0398c2ae88eb63", e: "010001", d: "19f365e3a13a81301dbae8fb71d3560b85f1e1596ba931eb988e9c6021adba419fb8fca3b85f7ff5de865399937cd529bddd43362c53f6b85e55c0772ea27e694831e6625f18141f8aea99a03253dc2ef90b9e183ea5104743e0b42ecf3a481c5b97b45dc56e48bfb2b9fd49bb70bd87842a54d99a65bdb12acaf8014f1cc20719", p: "0df1e09464f4256401572a06644f7da518aa20beaa460daceda1e09cd771d7dda1c852c6abbfd5ec3aca7aaa1788bc72b19107c995d4dd08fa42383d53cf4fc265", q: "07ac07eeb2713746f7e37b7d828e4149ae3733e9ac124b3b98c2eda5c7bf6c5e73dc4d5d7774d8072eea234467293a6bf8522fdbca051232f2bcd869aab64d3627", dp: "08b7a126032a20c9b090d5c3a327922b080d2a6526ba9e47f15195c156696381b8662b60e8f3067f238d7a3b2475252129e1b9158aa5c3fb9dbe91bbbccdc75585", dq: "945021095e9d5301a32f0f224dc5c65f9e919002cb7adcec434418f1c595d4682169c236241fb0232dd12df83057d611717b65b892bb761778854b2d7608cc9f", qi: "0943cc2a66d4f6613b347cefb90cd69f1222f8988240417bf13d4a0819a5a12c2b5f50fb28111b6492ab2eeb96ef8aa49237271e3cb16f0e4459f14aeb429d49ab" },
    RsaKey { bits: 2048, n: "d88af1a42312cd07d602fdac20fa9454515b5a575794efadb47aafd955af29f6a32756f6f500ed67961e0ce811ea8db30c16ed3ea6fb1659ccc1a8770e47cb3d89ae63f840a5e793a5bed467c94dd9e96c1d58dc2763fe0e7bf7e4dbc20c36130a9590bec50aa018c15ec0bf767e160e0d8a327857ec69d4098ff7f755604a367ba0ada022d088b5bb1d539f2b4405d74ddc785eda92ec894ee836d3da8cb1739b7c2dba52552bf68448eb66d726cf493689d1ce606319cc61f875615570a70265e95e47342e457da09dbd321e0f562d0db2cc0c291c2c8ad59ee0365a0f2d1994bf6aaeb14bfbb59bca52afb72934f44177b7af9e6c2e713fa30604ae0004e1", e: "010001", d: "06a4988e22ff5027e5e2589adfb62037c7f927f7d6f97c32d57f1006f85073d69ba1b8d2c1a8622013e45f1bfd74b71d1f895284e20580e58759078c83752360836944aad87cde72529adc9444822d65b249e2307acadfffdcc0b9961e49569d55ed49aff8867f6bd2fecfa5f0022536102745ae187069bcb600632884c77bef4a8075643696933532aa7fae79ea18e36e9267f686d53436e0c9b6c7803860d774e08b65010c012d1d3e994acdf1dba82f71cc958376160d74d940b383c4e9f03303803fe4e4b5c27e9b91b78fabcc148d1281246c8a4f5727e5217f4d57ec2d04660daef774c03d8f9b3f06d4b7e404ae79fe33a1957904e51d61ad708098b9", p: "eb881fc2b45d10ce996f5d172cc727e0f7f684529210f7e607efdec34b39822ae2e1fb5967bc6ef398cc125bec244daaaee2237ad5ef9ebb08e0f854d28bfe169ebc14cb7a0595592cec2f93448a21a2871b29192843959641dd31f037c704bc867b4e8b4b401058b2129b14ead59d6cb663a0ccf2b0171f2a3503573d66688d", q: "eb5c5f2d147462bb27934e74f22093a91d315441680e75bdd357636ef9eab389f35d9db67d99899e35f312092b3a5407702a109621229f9b42b7eb799312ca85aa0e6029639fb93875b9064021194280d441ea4394b639b07d0e17e76b67bbc1e48e556f5587888393db6aafc6d2b3c9b151c242017ab178e71c09111e15aaa5", dp: "598d5a361789c3182a72933c7a84067f9d0817eba529da7795d0f82bdcf032b3c7ac107b3fdbff7b933f1443eb172a889911d6579ffc09a8278a12217e244829a594f17b241bf75afe9f96bf31b22b73b656f75b5f59c3086c6683d44800dda628a3bd8b6cc320f3f850e6b21f4fb5195e87a6de05f039fa597bea9742fb2b09", dq: "33d26cea621c96389b2826183dcfca736c081683284436cc8b222cb49cb67ebd9b263bb998c21bb9082bf306adcbf4008743dbcf1290ab0fe68ad4803a4fe2e3b763deec7e11071955625debf4ddb8f4e0c77aab52ad24daa54e5b190b5f15ca4566c98cf00a1d96cb117ed62132f77f2b59d329f165707a2c78d1ce410f8839", qi: "49b5f8ed54e33053faa6db209407b909915392e0b66a6df6e2089f9250810ec3143078dcddf83eb590c3f22ee4842084caa25a6f57198ee3195f4d32a7be7dec6100fdabd48f797f495fc914dae29174b3e755ee08ee6424b31eeb418246752c28c9ee1302fdde3ad2207a450a00bb6ac97c0d01f4deaf2eb9bf63e19623f55f" },
    RsaKey { bits: 2048, n: "a855d8dc876ddb613315e127a736584280a7d27d50afd22ec1a9ba68c76022b3e98df05c880dcb8c43d55a8a0de6a348072ec727738ba60e5a81452825c62bd2f3326b2789a65c54c008af57ff0727ff4990f604c72e5518041094d6e23b04f806c1f5d4e503beb68bbe6d7a280ce0e909a29224ebdad72563e75efc88a2ab5458d11c9a2cb86a1d6fbbe8d03368625f6fa1bd97fe66f70633fac4d9c9238e164632e82e27f6f137c68ed01ec51751489b432e03b85ff0e42d20e7e6fccd9bf8508bc31fc48fdec9829f075258642702d208586e05b3d80b4452b2c567d1df51bf234c64f45843fe2900e3dc24c6a7f68a130429bc97bfe9ff5afcf75281b1a1", e: "03", d: "70393b3daf9e9240ccb940c51a243ad7006fe1a8e07536c9d67126f084eac1cd465ea03db009325d828e3c5c09446cdaaf7484c4f7b26eb43c562e1ac3d9728ca2219cc5066ee8388005ca3aaa04c554dbb5f95884c98e1002b5b88f417cadfaaf2bf93898ad29cf07d448fc1ab3409b5bc1b6c347e73a18ed44e9fdb06c723725fb9c04292e718be37d440597ef29793b433c1237c95137abb1c300e48e3f1f5d9c9242ecde45638a28dc837af8f1393ae1a56d5b8014104e49b7bfeee4bf6844f831ab183b1320608755a71f52ee370cde75c23e03a603752490786abe24f6e9bca9e3fa596a46f566d72370a60ff90bf7dba40dc2209c0a458546ecf89183", p: "dba4c4d8d372f82563c21e47a85847f6020950d54a0d2c984194dcf341b5cd75eb01233149f177747cb6238332fc56d3d93b2623dceaf6850b1aba0e5ff86141de750aa40ff96cde7266c21f0b37c4a90d91cd869d0799ab64ff5a023d7c57cd7dd75a0d089325ce67ce1262cf9363d57cc2979a7858f316c381b5d45d6c47ef", q: "c432edbb1b7fc7a636bde48027295c3394b392a760abd09a70db4365309861f14ec6e9987ab811adfa9b61d659a5909ee9b58fbbd234dc46ac979a38b67e1b9a0aa26dfb103dd53a7f6d44b89e2ffd073128da440ba6c55aaf9c800e8a385011e2b0f381f43efec551188ec42c3a2c2b7b5ca3192f9b9be92c70ff3891a08f6f", dp: "926dd8908cf75018ed2c142fc5902ff956b0e08e315e1dbad6633df78123de4e9cab6ccb86a0fa4da8796d0221fd8f37e6276ec293474f035cbc7c09955040d6944e07180aa648944c44816a077a831b5e6133af135a66724354e6ac28fd8fde53e4e6b35b0cc3deefdeb6ec8a62428e532c6511a590a20f2d0123e2e8f2da9f", dq: "82cc9e7cbcffda6ecf2943001a1b92cd0dcd0c6f95c7e066f5e7824375baebf634849bbafc7ab673fc67968ee66e6069f123b527e17892d9c865117b24541266b1c19ea7602938d1aa48d87b141ffe04cb709182b26f2e3c75130009b17ae00bec75f7abf829ff2e36105f2d72d172c7a79317661fbd129b72f5ff7b0bc05f9f", qi: "c8ac87d0ccb574a2fa8f7dc68c6e4697a36e88e32129a6d082c72c516d949c2d708b6e3969310e97798c34acff096cb6fc8bf19a38068b2a18673e9eeb6c8624e2a469da3eadd5e96de24169598859c30b1556f61e8a277dec73b1cf2a2d2828f00285cb1bd30265d39ee0fd0bb23f60006998fffa6fd69eda616e75fa831cc7" },
    RsaKey { bits: 3072, n: "d0d18c55ba846622d3472fae02a5ec067d7464219d20797628bd024cb00f973b4bf95d68d2644955665b5eecaaa23c0c3b245de8e45e734cf8254f83730f27fb1233ec6a0a233fbdfd7137fd84695540ebcd3d8d7cbacb161c2759659d0c6ed98949aaec090036e8bff5e5bac064f84f07630b62355cc83eeed4c7afc78ffd49ab0a8a4cd33aac5a9076451fb3ad5fa295ef6f6c728a57a2700816c45ff06433ef3e943c560ba1552eab6bd6802a64db7f9cdf3f90f683e19ab5687b9058e9c08be9e37a2301e54cd563488fb687b0b92cb6341ec97b36c68ef2a568485aea6e04d38d406265f6856ba7eaf66996455c95ec7337cbeb60d857cb01ebce7611f0944f7030d771e4e344da79a251a47d5a307b781bdd11903ebf7b86b19e48f95e016f0f4dc588ec2ecdb6d29aa1138907c389c3523aee634bf37715e353dbaa2cbbe32034b06cd4c373648ddcbd78d4f7176163f4b968ca642219f18d89bc506180a987b6e562d0d04c44a4573870bb0dd6b850a539618cef012f59811b87a5ef", e: "010001", d: "5857464ce056f1d4aad8535204f9c7d3e9102bea528c72062c6ee5c1a6bc39c912b7a0ae5f4fa0fc998c6f28a57973f8e2ae5c7251e6a955b72725afe125d8cead613d13914d5f4293ad69b7fd640876aa2b4e6e84858bb4435ddc429241b7c59d0086e84b5885624b0f8ecc466790eaf21f9329cd947e7cad52645637917160d094e9745dea550f0d4d93a9b93c5018bae0ac1d4f89ba50549fff6dbd7eb80d8699cd61872f6d65d99418cf8ab224affd99529314534df0cc2011df306e8518b617306a58c1bc452867b9aa18649a3f4f9fad57598434942bce18222df0d98eeb41b0d83f52d125ed4530f9fdcf6371a0a241063be75df877254c9b199d614fc5f00a353b611e9e8e5e0da6d0bf80ffd0d30ffdff3395d13d79690c5e0da515923fb932189c75d6df4294dcdc31cfcf88f58ed12839d3334c9c14c10bac8e28a739d76b1d6b0cbf9a584e31f4644e900624ea1535f4216493412a2376c1f7a36fe097a6d59a768b86f9d970e1eff639e14c17dd1154e4efafde424057be4229", p: "e7695e54e2eb84f71b24391559c23fd7da4bec0f3809effd96927d36e94b1e1b240aa720df59dec235587eea64f5fb1af651bbf36be499f20c77f0418f6220e8f8f29dc0a4c2ecf6aa23d002aa6c46ed3520842295999caf09a5ae175858b61f5a86f5b693fd47512ee880937c41c522a9d1c2aa78b7eb5f8c16331e1cd998d2dfe6007d8130f97b6ad13f6e87a148a77b9bf6e549ce40f3d604274f5bd1a603dde19f778a0f07c46211eb630325b51fd5af714e74fd081f5b796fbc8b258217", q: "e701a03092d026cfd9e640d174a7fb05823c2483169657d001d2d27ffe2bc678cf7c29fbffb020ef041b76ac418dbe13373d9758f04168f97fa36b8eb83bdcda766d1a8ec3a74a793f4d55299c2a0e387b853289df402c22c93bb7be3b4d3330c5693724c8d7d43d353c8e7be63be5f1c551f9ce88a81be24de40d440cc15588702bb0eb88deb31190a01e080741d6aa0fb4bf99d5af4a5140d3d18a6a6b43a9ee5d7362cbf53867e10b5c81d96c21ee6ee4c4b7b611424b0a12c34cf6d019e9", dp: "b0651d46cf827fe46c87fc0b4e54479e1e046978605b12d8d681eb7883f4828a65bac912c1ae1ba3264ec2cfa10defcee99bfc0cdd5d700b957d8762320db6d05f9370b47be32a060c4328381ff85148578ae5ae072304d0582636c20cd1f2618bfbfc28a43e18b2c572ed2f7f3413350d059bc19e2b73fb6d292ee5f14fdcb241816d363dd83b13dca48c1990c15c446e70c08e9ee7dd9300bc41cab84ee2a167eca845d2b30a54a3fcccd4b87d71c74677698348a1e8231ef33e3d16440d19", dq: "b0e3c5ce6c1d881ad138479a1c42252deab433214e4281ab7e39f9869912dc3fd661b5a489fe4cb9b9e36dd429be68363eaea31e2f9b66cee6b634be6cc52a30ff4e3c6fe5d24c6cdbd453ca3112e320cd3509a61996023600f2019961bf93db5ccf5cb28638ff047fa78753c8d1451b0585e84c06c8f3d12ee3da64a97fc207601d94b44772809c8aaa9154847a1deecb6814efaf7932e75544ddc7a805cb226cac9296aca77231d959e1d46cb128aa73b02a12a310443b41d36c499b156f41", qi: "60a7c96befd2d1412b01a432d60727afe864ec5032e5a96771fd5d98cd6d4b9d7694f53889b94565ddfe000ddc66f4eebc155b37a391de6e12d3662bef5e0fdd368a153eb7cc19efac182bd09f02eea8e65d0a554f2976fbc8f212c0b3efa5330be6f0a80d131da6014bfa4ed0257a8fa72417f7a930fd33197089f26e4ebdcba1a429ddd12465cc4bf4f24f921e36e4bafab6f944a435ac719c773f84f0757b6f66610edcd9bf04d7b14a24c7600f763be62e3162da7053ad2260c5eaca0f38" },
    RsaKey { bits: 1024, n: "a565694e39104de7a77e59c41c88e2f38d8f1cbf2d5581d0565a7132e9818c53b418c69a8420a07fe82b6047bda7e528e82a0e6f7f3a284b7ea52ed7fd3254348b7a7b790cc7a696030f4ca761f8933cf483cf1bf33e3b904b4acd9ae342a3b4f06324f0fa02e995cffde67ab2d88ba124bba9a62e9b0006feb71568ac22b149", e: "010001", d: "3652a18cac975b4f0ba7272a8f48b269d603bc285a666c3596372c58d172d83921bcc576389152c5cfe6773ff8ddad198b6f4cc078240cda06e5900626c621fb7cea28ce14927c1e240926c74f7637e4a69bfb8ff491a4fc0178195069b6a734aeb8531f897f7f94b89c26df9859391f3c986e7e68167f024d76cdbff644aa11", p: "d0698fd41c07e9336c2c6531b02f03f67b64cf9fdf29b1f92d12244b656af54837c6c586f888608e99caa5aa095ff57bcb7d51c7928710c4b0fe4a857bf5eff5", q: "cb296660f467c5159d78bf845e260039df4fb5d4c6a6113c5e317e0c8e7dfbf3beb3359c7f2732f4712afe5bf3afbabc52d649fe002bf8317204ba4c9ee78b85", dp: "acda507af880ab2e8612501fa4e369a2fd768029357aac6c60b0423ff22e829ed1fbdf09f18992a3d2f3daf0aaf3d67345337c274ce50ec8438fb498ff55dc1d", dq: "638d4bdfa2a3decd72b6a292485832b0291f3428a996e2c74418d87d6aad8d72a935c3c586013d54cec79490965ebc10603f254ed3e2b7e1f2cf22433d7294c9", qi: "8046c3637cbc871ed2529422980bb7d71fbdb48a9e4c267b42c08ddf40bd0f63c7251d7f1722392446e70c26c85b8404f17217b6cb29223ece1d4e018622a197" },
];
