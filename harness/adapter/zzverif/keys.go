package zzverif

// RSA fixture keys (public exponent 65537). Test material only.
var fixtures = []struct{ n, d, p, q string }{
	{n: "bff5eb251aa199388d3fd5bf2129098ff30a0b227fd9641c719447683429ab4d1999e29e397d32c148f4e4086d5ff2cda58d63ef10e973e764375d539b9b3eb654ac32f8a25697735b5aef9452c62b934146cd62b35008f28afe57e34653953be743b2a873339df7eedf35325c591b30aec4c7302228084a1ca170f19e5cac61", d: "327da6aa0dc52f9e16591209c1d91f70c38682c3424995f17d567929c97ea4561543cabdbf7554e24e244bce83a657210c48925e915e36644891df745c5b8b34c996a5b56e7289f75b00cbbdddd604fab7b67cce6991093b6cc04b304cf464fb8310d0fe6c8cf3926f5f070a8205de1ed42835d6bfc93dc1d33b9be3bd29b7d9", p: "de13e021af965d4173454b6834b35ec79183d83f6abcefbe9aa357b93f6fe3f19a43af58b6e66dcc54c2aa5ba63c1a186bc977235b6ea8769ec17b973c9aa5cf", q: "dd4858d696e9cdc152810098356bb7129aaf605919001f39bb224cfe73c4173a70758acaf20a9848c8edf6b8fe66e678baa288b4ec81463cae4c1608e4e646cf"},
	{n: "cdb7d3902cbee9bd75034da5fa320a14857b0d216026d0241c4166b717a486d03aa8601b06bad2116a9bf97c0a0cbef409318684a64306c11576e030f03516727a50ce9b2c6fe34d54826b8e0d06e52295154b018858fd44a6c34168405083ae1ecae46653bb3c8e0c451e7b7d614173349657187746614d73496e6b6d01d7b1", d: "520ea0ebb205871be4d867f92c5718713e1b2ace24d9e68d78ddd79871ec55402b1dad942a378c02997954e756e4e5a8572073ad66da768fbf3d9748be1016fee460356b52ea10a96d8eeee23cc2b6b388bf259e8462425a10d70a5fbdef4b210bee9a19d9a68535c127860d14cb6565e3c2e93340bc17a09c84f2879eb3ea07", p: "d58129d9a50b17dfd2ab679338e75a4ebcc7180a3d1c2b34174bc219a9e35deb1c6f139b1cf3e9e1400a66638ca1e57a5a4b196d1e70dfec3028a27f343b54cf", q: "f6a9e9e86d80a3cf921a30b27cc2f885111a2e44ca267b1250fcc0633696949950c604d19ef610ccf6b7c59b4c6629fdce6c099d20dfcdce6977717c2b6c2b7f"},
	{n: "e6807977b3c8d7e7cf56fc162ccab8bc9a4d6ddf1815d571780ede14597459476b0ee7d91203164898c0da051fdb9a1470d996b23165f0fa76e4ea31cf435e065915c5d83e1c54b7a53acc75b2ac5a03f337cdafc7280c5e3528ebd89dc847849e2b8544cc53af618d9577356b8861cf0be2cd7eaa8f006d80aef6bb3312f039", d: "2af8e4ac564e2942443b593fe115e21ef73d5c306d5314b9d4c220d0f66464889602ef625ea348b23c18280d308546526d3f8382b106ea48278641cb0b72e9c2369e20bbb67986006c9151eb41285ae77975e458105a8a225fc82815891c744ddd284d47928aec70f6a5679760a0c93253ff729d1a1af6b7b7e902b2a1719a49", p: "f79a617a36a524f03f64aab1aab2874ab354642ec001101b6a267bcc5bd0d05999e23a51ae9aacdd78738caed4ff67d4d7b8843344a2fbe63f33351ce2118b5f", q: "ee51a040e12e17fa4d08a8db4ed8974372256acdd36dab6801ba11e49713a35f1dcd9eee4240f8e14c9b8544145f9e99abaf1d12a4a7265fa45d67720fb64367"},
}
